------------------------------ MODULE HtmlLife ------------------------------
(* Who keeps what alive.  A document keeps its tree; a node that is held      *)
(* keeps what is below it; nothing else keeps anything, and the links to the  *)
(* parent, the root and the document never do.                                *)
(* st.nodes: the tree as it was parsed; st.cut: nodes taken out of their      *)
(* parent's children; st.held: nodes the user holds; st.doc: is the document  *)
(* still there?                                                               *)
EXTENDS HtmlEdit

NewLife(nodes) == [nodes |-> nodes, cut |-> {}, held |-> {}, doc |-> TRUE]
(* the first node, from i upwards, that is in `from`; 0 if a node that was cut out, or the root, comes first *)
RECURSIVE Keeper(_, _, _)
Keeper(st, from, i) ==
  IF i \in from THEN i ELSE IF i \in st.cut \/ st.nodes[i].p = 0 THEN 0 ELSE Keeper(st, from, st.nodes[i].p)
Kept(st) ==
  LET from == st.held \cup (IF st.doc THEN {1} ELSE {})
  IN {i \in 1..Len(st.nodes) : Keeper(st, from, i) # 0}
(* while the document is there it may still know nodes that were taken out of its tree (by their id): not specified *)
Open(st) == IF st.doc THEN (1..Len(st.nodes)) \ Kept(st) ELSE {}
Dead(st) == (1..Len(st.nodes)) \ (Kept(st) \cup Open(st))

(* a call <<name, n>>; `did` tells whether it could be done, where that is open *)
Must(st, o) ==   \* "yes", "no" or "open"
  LET of(i) == IF i \in Kept(st) THEN "yes" ELSE IF i \in Open(st) THEN "open" ELSE "no"
  IN CASE o.op = "hold" -> of(o.n)
       [] o.op = "cut" -> IF o.n = 1 \/ o.n \in st.cut THEN "no" ELSE of(st.nodes[o.n].p)
       [] o.op = "release" -> IF o.n \in st.held THEN "yes" ELSE "no"
       [] o.op = "drop" -> IF st.doc THEN "yes" ELSE "no"
Do(st, o, did) ==
  IF ~did THEN st
  ELSE CASE o.op = "hold" -> [st EXCEPT !.held = @ \cup {o.n}]
         [] o.op = "release" -> [st EXCEPT !.held = @ \ {o.n}]
         [] o.op = "cut" -> [st EXCEPT !.cut = @ \cup {o.n}]
         [] o.op = "drop" -> [st EXCEPT !.doc = FALSE]

(* the nodes below i as a tree of their own *)
Below(st, i) == {j \in i..Len(st.nodes) : Keeper(st, {i}, j) = i}
RECURSIVE TextOf(_, _)
TextOf(st, i) ==
  LET n == st.nodes[i]
      kids == SelectSeq([j \in 1..Len(st.nodes) |-> j], LAMBDA j : st.nodes[j].p = i /\ j \notin st.cut)
  IN OwnText(n, PlainRO, "none", FALSE, FALSE, <<>>) \o FoldLeft(LAMBDA acc, j : acc \o TextOf(st, j), <<>>, kids)
     \o (IF n.et = None THEN <<>> ELSE EndTagText(n.et[1], PlainRO))
=============================================================================
