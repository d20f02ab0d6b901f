------------------------------- MODULE MCBuild ------------------------------
(* Histories of calls that build an element; every history is emitted. *)
EXTENDS HtmlBuild, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
VARIABLES x, ops
vars == <<x, ops>>
Quotes == {0, DQ, SQ}
Keys == {S("k"), S("id"), S("Id")} \cup (IF Wide THEN {<<>>, S("idx"), S("i"), <<304, 100>>} ELSE {})
Values == {<<>>, S("v"), S("a b"), S("a`"), S("'"), <<160>>} \cup (IF Wide THEN {S("="), S("/"), S("a>"), <<11>>, <<12>>, S("\"")} ELSE {})
Texts == {<<>>, S(" "), S("t"), <<LF, 160>>, <<12, 13>>, <<11>>}
Calls == {<<"addKey", 0, 0, <<>>>>} \cup {<<"addVal", q, 0, <<>>>> : q \in Quotes} \cup {<<"setKey", 0, 0, k>> : k \in Keys}
         \cup {<<"setVal", q, 0, v>> : q \in Quotes, v \in Values} \cup {<<"text", p, 0, t>> : p \in {0, 8}, t \in Texts}
         \cup {<<"name", 0, 0, S("Pre")>>, <<"void", 0, 0, <<>>>>, <<"self", 0, 0, <<>>>>}
Init == x = NoElement /\ ops = <<>>
Do(o) == CanCall(x, o) /\ x' = Call(x, o) /\ ops' = Append(ops, o) /\ PrintT("G " \o ToString(ops'))
BuildAttr == Len(ops) < Depth /\ \E o \in Calls : o[1] \in {"addKey", "addVal", "setKey", "setVal"} /\ Do(o)
BuildNode == Len(ops) < Depth /\ \E o \in Calls : o[1] \notin {"addKey", "addVal", "setKey", "setVal"} /\ Do(o)
Next == BuildAttr \/ BuildNode
Spec == Init /\ [][Next]_vars

(* an element with plain names and values says the same after it is written (with and without quotes) and read again *)
Simple(a) == a.k # None /\ a.k[1] \in {S("k"), S("id"), S("Id"), S("idx"), S("i")}
             /\ (a.v = None \/ a.q # None \/ (a.v[1] # <<>> /\ \A i \in 1..Len(a.v[1]) : ~IsWs(a.v[1][i]) /\ a.v[1][i] \notin {GT, DQ, SQ}))
             /\ (a.v = None \/ a.q = None \/ \A i \in 1..Len(a.v[1]) : a.v[1][i] # a.q[1])
ValueSet(a) == a.v = None \/ a.nq = NeedsQuote(a.k, a.v[1], a.q)   \* its value was given after its name
Says(at) == [i \in 1..Len(at) |-> <<at[i].k, at[i].v>>]
Reread(ro) ==
  LET e == Element([x EXCEPT !.name = S("a"), !.vo = FALSE, !.sc = FALSE, !.kids = <<>>])
      f == Parse(Render(e, ro), StrictOpt)
  IN ~Failed(f) /\ Len(f.nodes) = 2 /\ Says(f.nodes[2].at) = Says(x.at)
Design ==
  /\ \A i \in 1..Len(x.at) : LET a == x.at[i] IN a.nq => a.q # None /\ a.v # None
  /\ (\A i \in 1..Len(x.at) : Simple(x.at[i])) => Reread(PlainRO)
  /\ (\A i \in 1..Len(x.at) : Simple(x.at[i]) /\ ValueSet(x.at[i])) => Reread(NoQuotes)
  /\ \A i \in 1..Len(x.kids) : x.kids[i].t = "Spaces" <=> AllWs(x.kids[i].c[1])
=============================================================================
