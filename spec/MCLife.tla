------------------------------- MODULE MCLife -------------------------------
(* Histories of holding, releasing, cutting out and dropping; every history is emitted. *)
EXTENDS HtmlLife, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
VARIABLES st, src, ops
vars == <<st, src, ops>>
Docs == {S("<a>t</a>"), S("<a id=x><b>u</b> </a>v"), S("<p><i></i><pre>q</pre></p><br>"), S("<title>r</title><!--c-->")}
        \cup (IF Wide THEN {S("<a><b><i>t</i></b></a>"), S("<!DOCTYPE x><a id=x></a><b id=x></b>"), S("<svg><![CDATA[d]]></svg>")} ELSE {})
Init == \E d \in Docs : src = d /\ st = NewLife(Parse(d, StrictOpt).nodes) /\ ops = <<<<"parse", 0, 0, d>>>>
Take(name, n) ==
  LET o == [op |-> name, n |-> n]
  IN Len(ops) <= Depth /\ Must(st, o) = "yes" /\ st' = Do(st, o, TRUE) /\ st' # st
     /\ ops' = Append(ops, <<name, n, 0, <<>>>>) /\ UNCHANGED src /\ PrintT("G " \o ToString(ops'))
N == 1..Len(st.nodes)
Hold == \E n \in N : Take("hold", n)
Release == \E n \in N : Take("release", n)
Cut == \E n \in N : Take("cut", n)
Drop == Take("drop", 0)
Next == Hold \/ Release \/ Cut \/ Drop
Spec == Init /\ [][Next]_vars
Design ==
  /\ \A i \in Kept(st) : Below(st, i) \subseteq Kept(st)     \* what is alive is complete downwards
  /\ (st.held = {} /\ ~st.doc) => Kept(st) = {} /\ Open(st) = {}   \* nothing remains
  /\ st.held \subseteq Kept(st)
  /\ (st.doc /\ st.cut = {}) => Kept(st) = N
  /\ st.cut = {} => TextOf(st, 1) = Render(st.nodes, PlainRO)
=============================================================================
