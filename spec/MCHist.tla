------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Histories of cloning and editing.  A behaviour starts with a document   *)
(* and a clone of one of its nodes, and then edits either tree, through    *)
(* the public fields, one edit per step.  Each history is emitted and      *)
(* replayed into the real code.                                            *)
(***************************************************************************)
EXTENDS HtmlEdit, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
VARIABLES src, r, pair, ops
vars == <<src, r, pair, ops>>

Docs == {S("<a>t</a>"), S("<a k='v' j><b> </b><br/>u</a>"), S("<!DOCTYPE x><title>r</title> "), S("x<!--c--><svg><![CDATA[d]]></svg>"),
         S("<p><i></i> <pre>  q</pre ></p>")}
        \cup (IF Wide THEN {S("<a><a><a>t</a></a></a><b/>"), S("<script>s</script><a></a>"), S("<a =>&lt;</a>"), S("")} ELSE {})
Op(side, op, n, at, text) ==
  [side |-> side, op |-> op, n |-> n, at |-> at, text |-> text,
   attr |-> [k |-> Some(S("k")), v |-> Some(text), q |-> Some(DQ), nq |-> FALSE]]
Edits(side, nodes) ==
  LET N == 1..Len(nodes)
  IN {Op(side, op, n, 0, S("zz")) : op \in {"content", "append", "poke", "attr", "rename", "endtag"}, n \in N}
     \cup {Op(side, op, n, 0, <<>>) : op \in {"delattr", "noend", "selfclose", "void", "type", "remove"}, n \in N}
     \cup UNION {{Op(side, op, n, at, S("y")) : op \in {"insText", "insTag", "insComment"}, at \in {0, nodes[n].k}} : n \in N}

Init == \E d \in Docs : LET ns == Parse(d, StrictOpt).nodes
                        IN src = d /\ \E x \in 1..Len(ns) : r = x /\ pair = [a |-> ns, b |-> Clone(ns, x)] /\ ops = <<>>
EditOriginal == Len(ops) < Depth /\ \E o \in Edits(0, pair.a) : pair' = ApplyPair(pair, o) /\ ops' = Append(ops, o) /\ UNCHANGED <<src, r>>
EditClone == Len(ops) < Depth /\ \E o \in Edits(1, pair.b) : pair' = ApplyPair(pair, o) /\ ops' = Append(ops, o) /\ UNCHANGED <<src, r>>
Emit == ops' # ops /\ pair' # pair /\ PrintT("H " \o ToString(r) \o " " \o ToString(src) \o " " \o
                               ToString([i \in 1..Len(ops') |-> <<ops'[i].side, ops'[i].op, ops'[i].n, ops'[i].at, ops'[i].text>>]))
Next == (EditOriginal /\ Emit) \/ (EditClone /\ Emit)
Spec == Init /\ [][Next]_vars

(* both stay trees in document order; the edits made on one side are what changed on it, nothing of the other side *)
PreOrder(nodes) ==
  /\ nodes[1].p = 0
  /\ \A i \in 2..Len(nodes) : nodes[i].p \in 1..(i - 1) /\ (nodes[i].p = i - 1 \/ InSubtree(nodes, nodes[i].p, i - 1))
  /\ \A i \in 1..Len(nodes) : nodes[i].k = Cardinality({j \in 2..Len(nodes) : nodes[j].p = i})
Side(s) == SelectSeq(ops, LAMBDA o : o.side = s)
Design ==
  LET start == Parse(src, StrictOpt).nodes
  IN /\ PreOrder(pair.a) /\ PreOrder(pair.b)
     /\ pair.a = FoldLeft(Apply, start, Side(0))
     /\ pair.b = FoldLeft(Apply, Clone(start, r), Side(1))
     /\ LET c == Clone(pair.b, 1) IN TreeShape(c) = TreeShape([pair.b EXCEPT ![1].i = 0]) /\ c[1].b = 0 /\ Clone(c, 1) = c
     /\ Render(Clone(pair.a, 1), PlainRO) = Render(pair.a, PlainRO)
=============================================================================
