------------------------------ MODULE HtmlEdit ------------------------------
(* Histories on trees: edits through the public fields, and cloning.          *)
(* The operations have the same meaning as in the harness (edit.rs); one that *)
(* does not apply to the node it names leaves the tree as it is.              *)
EXTENDS HtmlTree

SubSize(nodes, r) == Cardinality({i \in r..Len(nodes) : InSubtree(nodes, r, i)})
KidsOf(nodes, r) == SelectSeq([j \in 1..Len(nodes) |-> j], LAMBDA j : nodes[j].p = r)

Leaf(op, text, p, at) ==
  LET node(t) == [NewNode(t, 0, p, at) EXCEPT !.c = Some(text)]
  IN CASE op = "insText" -> node("Text")
       [] op = "insSpaces" -> node("Spaces")
       [] op = "insComment" -> node("Comment")
       [] op = "insCData" -> node("CData")
       [] OTHER -> [NewNode("Tag", 0, p, at) EXCEPT !.m = TRUE, !.name = text, !.et = Some(EndTag(text, 0, 0))]

(* insert `node` as child number `at` (from 0) of node n *)
InsertNode(nodes, n, at, node) ==
  LET kids == KidsOf(nodes, n)
      pos == IF at < Len(kids) THEN kids[at + 1] ELSE n + SubSize(nodes, n)
      moved == [i \in 1..Len(nodes) |->
                  [nodes[i] EXCEPT !.p = IF @ >= pos THEN @ + 1 ELSE @, !.k = IF i = n THEN @ + 1 ELSE @]]
  IN SubSeq(moved, 1, pos - 1) \o <<node>> \o SubSeq(moved, pos, Len(moved))

(* insert the tree `sub` as child number `at` (from 0) of node n *)
InsertTree(nodes, n, at, sub) ==
  LET kids == KidsOf(nodes, n)
      size == Len(sub)
      pos == IF at < Len(kids) THEN kids[at + 1] ELSE n + SubSize(nodes, n)
      moved == [i \in 1..Len(nodes) |->
                  [nodes[i] EXCEPT !.p = IF @ >= pos THEN @ + size ELSE @, !.k = IF i = n THEN @ + 1 ELSE @]]
      placed == [i \in 1..size |-> [sub[i] EXCEPT !.p = IF i = 1 THEN n ELSE @ + pos - 1, !.i = IF i = 1 THEN at ELSE @]]
  IN SubSeq(moved, 1, pos - 1) \o placed \o SubSeq(moved, pos, Len(moved))

RemoveNode(nodes, n) ==
  LET size == SubSize(nodes, n)
      p == nodes[n].p
      fixed == [i \in 1..Len(nodes) |->
                  [nodes[i] EXCEPT !.p = IF @ >= n + size THEN @ - size ELSE @, !.k = IF i = p THEN @ - 1 ELSE @]]
  IN SubSeq(fixed, 1, n - 1) \o SubSeq(fixed, n + size, Len(fixed))

InsertOps == {"insText", "insSpaces", "insComment", "insCData", "insTag"}
Apply(nodes, o) ==
  IF o.n < 1 \/ o.n > Len(nodes) THEN nodes
  ELSE LET x == nodes[o.n]
           tag == x.t = "Tag"
       IN CASE o.op = "content" ->
                 IF x.t \in {"Text", "Spaces", "Comment", "CData"} \/ (tag /\ x.c # None)
                 THEN [nodes EXCEPT ![o.n].c = Some(o.text)] ELSE nodes
            [] o.op = "append" -> IF x.c # None THEN [nodes EXCEPT ![o.n].c = Some(@[1] \o o.text)] ELSE nodes
            [] o.op = "poke" ->   \* in place, of the same length
                 IF x.c # None /\ x.c[1] # <<>> /\ o.text # <<>> THEN [nodes EXCEPT ![o.n].c[1][1] = o.text[1]] ELSE nodes
            [] o.op = "rename" -> IF tag THEN [nodes EXCEPT ![o.n].name = o.text] ELSE nodes
            [] o.op = "attr" -> IF tag THEN [nodes EXCEPT ![o.n].at = Append(@, o.attr)] ELSE nodes
            [] o.op = "delattr" ->
                 IF tag /\ o.at < Len(x.at)
                 THEN [nodes EXCEPT ![o.n].at = SubSeq(@, 1, o.at) \o SubSeq(@, o.at + 2, Len(@))] ELSE nodes
            [] o.op = "endtag" -> IF x.et # None THEN [nodes EXCEPT ![o.n].et = Some([@[1] EXCEPT !.c = o.text])] ELSE nodes
            [] o.op = "noend" -> [nodes EXCEPT ![o.n].et = None]
            [] o.op = "selfclose" -> IF tag THEN [nodes EXCEPT ![o.n].sc = ~@] ELSE nodes
            [] o.op = "void" -> IF tag THEN [nodes EXCEPT ![o.n].vo = ~@] ELSE nodes
            [] o.op = "type" ->
                 IF x.t = "Text" THEN [nodes EXCEPT ![o.n].t = "Spaces"]
                 ELSE IF x.t = "Spaces" THEN [nodes EXCEPT ![o.n].t = "Text"] ELSE nodes
            [] o.op = "remove" -> IF x.p > 0 THEN RemoveNode(nodes, o.n) ELSE nodes
            [] o.op \in InsertOps ->
                 IF (tag \/ x.t = "Root") /\ o.at <= x.k THEN InsertNode(nodes, o.n, o.at, Leaf(o.op, o.text, o.n, o.at)) ELSE nodes

(* a pair of trees: the original (side 0) and its clone (side 1) *)
ApplyPair(pair, o) ==
  IF o.side = 0 THEN [pair EXCEPT !.a = Apply(@, o)] ELSE [pair EXCEPT !.b = Apply(@, o)]

(* everything that is compared of a node in a history *)
Data(n) == [t |-> n.t, b |-> n.b, e |-> n.e, p |-> n.p, i |-> n.i, k |-> n.k, c |-> n.c, m |-> n.m, name |-> n.name,
            at |-> n.at, vo |-> n.vo, sc |-> n.sc, af |-> n.af,
            et |-> IF n.et = None THEN None ELSE Some(EndTag(n.et[1].c, n.et[1].b, n.et[1].e))]
TreeData(nodes) == [i \in 1..Len(nodes) |-> Data(nodes[i])]
=============================================================================
