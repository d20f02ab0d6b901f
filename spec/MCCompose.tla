----------------------------- MODULE MCCompose ------------------------------
(* Pairs of short sources; every pair is emitted. *)
EXTENDS HtmlCompose, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
VARIABLES o, a, b, n
vars == <<o, a, b, n>>
Tok == << S("<a>"), S("</a>"), S("</A >"), S("t"), S(" "), S("<br>"), S("<svg>"), S("</svg>"), S("<g/>"), S("<!---->"), S("<![CDATA[]]>"), S("<title>"), S("</title>"),
          S("</z>"), S("<1"), S("<"), S("<i k"), S("='v'"), S(">"), S("<!DOCTYPE x>") >>
       \o (IF Wide THEN << S("<pre>"), S("</pre>"), S("&l"), S("t;"), S("<script>"), S("-"), S("<!--"), S("/"), S("<B/>"), <<LF>>, S("="), S("<!d") >> ELSE <<>>)
Opts == {StrictOpt, [StrictOpt EXCEPT !.x = TRUE, !.l = TRUE], [StrictOpt EXCEPT !.c = TRUE, !.e = TRUE, !.s = TRUE]}
Bits(p) == (IF p.c THEN 1 ELSE 0) + (IF p.e THEN 2 ELSE 0) + (IF p.s THEN 4 ELSE 0) + (IF p.u THEN 8 ELSE 0) + (IF p.x THEN 16 ELSE 0) + (IF p.l THEN 32 ELSE 0)
Emit == PrintT("G " \o ToString(<<<<"cat", Bits(o), 0, a'>>, <<"with", 0, 0, b'>>>>))

Init == o \in Opts /\ a = <<>> /\ b = <<>> /\ n = 0
(* first a grows, then b *)
GrowA == n < Depth /\ b = <<>> /\ \E i \in 1..Len(Tok) : a' = a \o Tok[i] /\ n' = n + 1 /\ UNCHANGED <<o, b>>
GrowB == a # <<>> /\ n < 2 * Depth /\ (n < 100)
         /\ \E i \in 1..Len(Tok) : b' = b \o Tok[i] /\ n' = (IF n < Depth THEN Depth ELSE n) + 1 /\ UNCHANGED <<o, a>> /\ Emit
Next == GrowA \/ GrowB
Spec == Init /\ [][Next]_vars
R(text) == Result(Parse(text, o))
Design ==
  LET ra == R(a)
      rb == R(b)
      rab == R(a \o b)
      rw == R(Wrap(b))
  IN /\ Both(ra, rb, rab, Len(a)) /\ BothText(ra, rb, rab)
     /\ Inside(rb, rw, b) /\ InsideText(rb, rw, b)
=============================================================================
