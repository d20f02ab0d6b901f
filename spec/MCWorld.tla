------------------------------- MODULE MCWorld ------------------------------
(* Histories of calls on several documents; every history is emitted. *)
EXTENDS HtmlWorld, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
VARIABLES w, ops, last
vars == <<w, ops, last>>
Calls(o) == <<o.op, o.a, o.b, o.text>>
C(op, a, b, text) == [op |-> op, a |-> a, b |-> b, text |-> text]
(* the same text with other options, texts that fail in the middle of something, and ordinary ones *)
Sources == {<<S("<a id=x>t"), 0>>, <<S("<a id=x>t"), 8>>, <<S("<P id=x> <pre>  u</pre ></P>&lt;"), 0>>, <<S("<p k='v"), 0>>, <<S("<html><b/></html>"), 4>>,
            <<S("<html><b/></html>"), 0>>, <<S("<title>s"), 0>>}
           \cup (IF Wide THEN {<<S("</b>t<i>"), 24>>, <<S("<svg><![CDATA[d]]></svg><!--c-->"), 0>>, <<S("<svg><![CDATA[d"), 0>>, <<S("<A></a>"), 1>>, <<S(""), 0>>,
                               <<S("t<1<"), 32>>, <<S("<!DOCTYPE x><br id=x>"), 0>>} ELSE {})
Min2(a, b) == IF a < b THEN a ELSE b
SlotsUsed == IF Wide THEN {1, 2, 3} ELSE {1, 2}
Parses == {C("parse", a, s[2], s[1]) : a \in SlotsUsed, s \in Sources}
Views(a) == {C("render", a, 0, <<n, ro, k>>) : n \in 1..Min2(IF Wide THEN 3 ELSE 2, Len(w[a].nodes)), ro \in {0, 1, 255 - 64}, k \in 0..2}
            \cup {C("find", a, 0, S("x")), C("isdoc", a, 1, <<>>)}
Changes(a) == {C(op, a, 100 * n, S("z")) : op \in {"append", "poke", "rename", "attr", "insTag", "remove"}, n \in 1..Min2(3, Len(w[a].nodes))} \cup {C("drop", a, 0, <<>>)}
Grafts(a) == {C("graft", a, 100 * n, <<b, m>>) : n \in 1..Min2(2, Len(w[a].nodes)), b \in SlotsUsed, m \in IF Wide THEN {2, 3} ELSE {2}}
Clones(a) == {C("clone", a, n, <<b>>) : n \in 1..Min2(2, Len(w[a].nodes)), b \in SlotsUsed}

Init == w = NoWorld /\ ops = <<>> /\ last = NoWorld
Take(o) == Len(ops) < Depth /\ last' = w /\ w' = After(w, o) /\ ops' = Append(ops, Calls(o)) /\ PrintT("G " \o ToString(ops'))
DoParse == \E o \in Parses : Take(o)
DoView == \E a \in SlotsUsed : w[a].has /\ \E o \in Views(a) : Take(o)
DoChange == \E a \in SlotsUsed : w[a].has /\ \E o \in Changes(a) \cup Grafts(a) : Take(o)
DoClone == \E a \in SlotsUsed : w[a].has /\ \E o \in Clones(a) : Take(o)
Next == DoParse \/ DoView \/ DoChange \/ DoClone
Spec == Init /\ [][Next]_vars

(* a call touches its own slot (a clone: the slot it goes to) and no other; what only looks touches nothing *)
Target(o) == IF o[1] = "clone" THEN o[4][1] ELSE o[2]
Design ==
  ops # <<>> =>
    LET o == ops[Len(ops)]
    IN /\ \A s \in Slots : s # Target(o) => w[s] = last[s]
       /\ o[1] \in {"render", "find", "isdoc"} => w = last
       /\ o[1] = "parse" => LET f == Parse(o[4], OptOf(o[3])) IN w[o[2]].nodes = IF Failed(f) THEN <<>> ELSE f.nodes
       /\ o[1] = "clone" => LET c == w[o[4][1]].nodes IN Render(c, PlainRO) = RenderAt(last[o[2]].nodes, o[3], PlainRO, "none", <<>>)[1]
=============================================================================
