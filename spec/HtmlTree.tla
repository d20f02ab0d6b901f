------------------------------ MODULE HtmlTree ------------------------------
(* Operations on trees: structure, lookup, cloning, document detection, rules. *)
EXTENDS HtmlRender

(* ---- attribute name lookup: lower-cased name -> first index (0-based) ---- *)
KeyIdx(at) == {i \in 1..Len(at) : at[i].k # None}
FirstKey(at, i) == at[i].k # None /\ \A j \in 1..(i - 1) : at[j].k = None \/ ~EqIC(at[j].k[1], at[i].k[1])
NameMap(at) == {<<LowerS(at[i].k[1]), i - 1>> : i \in {j \in KeyIdx(at) : FirstKey(at, j)}}

(* ---- lookup by id: value -> node, the last one in the source wins ---- *)
IdUses(nodes) ==
  {<<i, j>> \in UNION {{i} \X (1..Len(nodes[i].at)) : i \in 1..Len(nodes)} :
     LET a == nodes[i].at[j] IN a.k # None /\ a.v # None /\ EqIC(a.k[1], IdName)}
IdIndex(nodes) ==
  LET uses == IdUses(nodes)
      val(u) == nodes[u[1]].at[u[2]].v[1]
      later(u, w) == w[1] > u[1] \/ (w[1] = u[1] /\ w[2] > u[2])
  IN {<<val(u), u[1]>> : u \in {w \in uses : ~\E z \in uses : val(z) = val(w) /\ later(w, z)}}

(* ---- document detection ---- *)
IsDocument(nodes, i) ==
  LET top == SelectSeq(nodes, LAMBDA n : n.p = i)
      tags == SelectSeq(top, LAMBDA n : n.t = "Tag")
      isHtml(n) == LowerS(n.name) = HtmlName
      doc == nodes[i].t = "Root" /\ \E j \in 1..Len(tags) : isHtml(tags[j])
      ok == Len(tags) = 1 /\ \A j \in 1..Len(top) : top[j].t \in {"Comment", "Spaces", "Doctype", "Tag"}
  IN <<doc, doc => ok>>

(* ---- cloning ---- *)
RECURSIVE InSubtree(_, _, _)
InSubtree(nodes, r, i) == i = r \/ (i > r /\ InSubtree(nodes, r, nodes[i].p))
Clone(nodes, r) ==   \* a subtree is contiguous in document order
  LET size == Cardinality({i \in r..Len(nodes) : InSubtree(nodes, r, i)})
      base == nodes[r].b
      sub(x) == IF x >= base THEN x - base ELSE 0
      copy(i) ==
        LET n == nodes[i]
        IN [n EXCEPT !.b = sub(@), !.e = sub(@),
                     !.p = IF i = r THEN 0 ELSE @ - r + 1,
                     !.i = IF i = r THEN 0 ELSE @,
                     !.et = IF @ = None THEN None
                            ELSE Some([n.et[1] EXCEPT !.b = sub(@), !.e = sub(@)])]
  IN [j \in 1..size |-> copy(r + j - 1)]

(* ---- insertion rule ---- *)
AllowInsert(name, t) ==
  LET n == LowerS(name)
  IN IF n \in VoidNames THEN FALSE
     ELSE IF n \in PlainNames THEN t \in {"Text", "Spaces"}
     ELSE IF t = "CData" THEN n \in ForeignNames
     ELSE TRUE

(* ---- character classes ---- *)
IsNonCharacter(c) == (c >= 64976 /\ c <= 65007) \/ ((c % 65536) >= 65534)
IsPunct(c) == (c >= 33 /\ c <= 47) \/ (c >= 58 /\ c <= 64) \/ (c >= 91 /\ c <= 96) \/ (c >= 123 /\ c <= 126)
IsKeyChar(c) == c \in {95, 45, 46, 58}
                \/ ~(IsWs(c) \/ c < 32 \/ c = 127 \/ IsNonCharacter(c) \/ IsPunct(c))
IsValueChar(c) == ~IsWs(c) /\ c \notin {0, DQ, SQ, LT, GT, SLASH, EQ, 96}
IsNeedQuote(c) == c \in NeedQuoteSet

(* ---- reading a file: every line is followed by one LF, a CR before the LF is dropped ---- *)
LineNorm(text) ==
  LET step(a, c) ==
        IF c = LF
        THEN LET n == Len(a.line)
                 cut == IF n > 0 /\ a.line[n] = CR THEN SubSeq(a.line, 1, n - 1) ELSE a.line
             IN [out |-> Append(a.out \o cut, LF), line |-> <<>>]
        ELSE [a EXCEPT !.line = Append(@, c)]
      r == FoldLeft(step, [out |-> <<>>, line |-> <<>>], text)
  IN IF r.line = <<>> THEN r.out ELSE Append(r.out \o r.line, LF)

(* ---- shape: what the tree looks like apart from source positions ---- *)
AttrShape(a) == [k |-> a.k, v |-> a.v, q |-> a.q]
Shape(n) == [t |-> n.t, p |-> n.p, i |-> n.i, c |-> n.c, name |-> n.name,
             at |-> [j \in 1..Len(n.at) |-> AttrShape(n.at[j])], sc |-> n.sc, vo |-> n.vo,
             et |-> IF n.et = None THEN None ELSE Some(n.et[1].c)]
TreeShape(nodes) == [i \in 1..Len(nodes) |-> Shape(nodes[i])]

(* ---- structural invariants every tree satisfies ---- *)
WellLinked(nodes) ==
  /\ nodes[1].p = 0
  /\ \A i \in 2..Len(nodes) :
       /\ nodes[i].p >= 1 /\ nodes[i].p < i
       /\ nodes[i].i = Cardinality({j \in 2..(i - 1) : nodes[j].p = nodes[i].p})
       /\ nodes[nodes[i].p].t \in {"Root", "Tag"}
       /\ ~nodes[nodes[i].p].vo /\ ~nodes[nodes[i].p].sc
  /\ \A i \in 1..Len(nodes) : nodes[i].k = Cardinality({j \in 2..Len(nodes) : nodes[j].p = i})
  /\ \A i \in 2..Len(nodes) : nodes[i].t = "Tag" =>
       nodes[i].m /\ (nodes[i].vo \/ nodes[i].sc <=> nodes[i].et = None)
  /\ \A i \in 2..Len(nodes) : nodes[i].t \in {"Text", "Spaces", "Comment", "CData"} => nodes[i].c # None
=============================================================================
