--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Bounded exploration of the specification.                               *)
(*                                                                         *)
(* A behaviour feeds tokens (short texts) to the parser, one per step; the *)
(* state is the options, the source so far, and the parser state.  Every   *)
(* transition checks the design properties (what the specification itself  *)
(* guarantees) and emits the source as a behaviour to be replayed into the *)
(* real code.                                                              *)
(*                                                                         *)
(* MODE full: every token sequence up to DEPTH.                            *)
(* MODE abs:  states are identified when their abstraction (Abs) is equal, *)
(*            so that every token is tried once in every reachable control *)
(*            state, to a much larger depth.                               *)
(* MODE chars: a coarser identification (Ctl), and in every reachable      *)
(*            control state also each character of Odd: all of ASCII, and  *)
(*            the characters that Unicode case mapping, Unicode whitespace *)
(*            or a truncated code point could confuse with ASCII ones.     *)
(* MODE pairs: names and end tag names that differ in one character only,  *)
(*            ends of raw text that are nearly end tags, and texts in which*)
(*            one piece is repeated up to 80 times.                        *)
(* MODE runs: texts in which one piece is repeated hundreds of times (the  *)
(*            design properties are only checked on texts up to 300        *)
(*            characters, all of them are judged against the code).        *)
(***************************************************************************)
EXTENDS HtmlEdit, Digest, IOUtils, TLC

Prop == IOEnv.PROP
Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"

VARIABLES opt, src, n, st, good
vars == <<opt, src, n, st, good>>

-----------------------------------------------------------------------------
(* Alphabets *)
NL == <<LF>>
Universal ==
  << S("<"), S(">"), S("/"), S("!"), S("="), S("\""), S(" "), S("x"), S("<a"), S("<a>"), S("</a>"), S("</A >"), S("<B>"),
     S("</b>"), S("<br>"), S("<HR/>"), S("<svg>"), S("</svg>"), S("<g/>"), S("<script>"), S("</script>"), S("<Title>"),
     S("</title >"), S("<pre>"), S("</pre>"), S("<!--"), S("-->"), S("<!DOCTYPE "), S("<![CDATA["), S("]]>"), S(" k='v'"),
     S(" id=y"), NL, S("</z>"), S("<1"), S("&lt;"), S("-"), S("'"), S("<svg><g>"), S("<![CDATA[d]]>") >>
Tok ==
  CASE Mode = "abs" -> Universal
    [] Mode = "chars" -> Universal \o << S("<!DOCTYPE"), S("<!doc"), S("<![CDAT"), S("</a"), S("</svg"), S("<title"), S("<pre"), S("</script"), S("<g>"), S("&l"), S("--") >>
    [] Prop = "C01" -> << S("<"), S(">"), S("/"), S("!"), S("="), S("\""), S(" "), S("a"), S("<a"), S("</a"), S("-"), S("--"), S("<br"),
                          S("<svg>"), S("</svg>"), S("<script>"), S("</script"), S("<!DOCTYPE"), S("<![CDATA["), S("]]") >>
    [] Prop = "C02" -> << S("<a"), S(">"), S(" x"), S("='v w'"), S("=\"\""), S("="), S("/"), S("</a>"), S("</a >"), S("</A>"), S("t"),
                          S(" "), S("<br"), S("<!--c-->"), S("<style>"), S("</style>"), S("<!DOCTYPE x>") >>
    [] Prop = "C03" -> << S("<a"), S("<a>"), S("</a>"), S(">"), S(" x"), S("=v"), S("'"), S("/"), S("t"), S(" "), S("</z>"), S("<1"), S("<br"),
                          S("<!DOCTYPE "), S("<!--"), S("-->"), S("<title>"), S("</title>") >>
    [] Prop = "C04" -> << S("<a>"), S("</a>"), S("<B>"), S("</b>"), S("<a/>"), S("<br/>"), S("<a ="), S("<!"), S("-"), S("d"), S("octype"),
                          S(" "), S("<"), S(">"), S("1"), S("<svg>"), S("</svg>"), S("<![CDATA["), S("t"), S("</") >>
    [] Prop = "C05" -> << S("<a>"), S("</b>"), S("t"), NL, <<CR>>, <<CR, LF>>, S("<"), S("1"), S("<a/>"), S("<!x"), S("<!--"), S("<!DOCTYPEx"), S("<a ="),
                          S("<p "), S("<title>"), S("</a>"), S("<![") >>
    [] Prop = "C06" -> << S("<a>"), S("</a>"), S("<b>"), S("</b>"), S("<br>"), S("<c/>"), S("t"), S(" "), NL, S("<!---->"), S("<!--x-->"), S("<!DOCTYPE x>"),
                          S("<script>"), S("</script>"), S("<svg>"), S("</svg>"), S("<![CDATA[x]]>") >>
    [] Prop = "C07" -> << S("<a"), S("<br"), S("<!DOCTYPE"), S(">"), S(" "), S("/"), S("="), S("x"), S("Y"), S("\""), S("'"), S(" k"), S("=v"), S("='"), S("</a>") >>
    [] Prop = "C08" -> << S("<script>"), S("<STYLE>"), S("<title"), S("<textarea>"), S(">"), S("</script>"), S("</SCRIPT"), S("</style >"), S("</title"), S("</textarea>"),
                          S("<"), S("/"), S(" "), S("<a>"), S("</a>"), S("x"), S("<!--") >>
    [] Prop = "C09" -> << S("<!"), S("-"), S("--"), S(">"), S("-->"), S("DOCTYPE"), S("doctype"), S(" "), S("x"), S("["), S("CDATA["), S("cdata["), S("]"), S("]]>"),
                          S("<svg>"), S("<g>"), S("</g>"), S("</svg>"), S("<a>") >>
    [] Prop = "C10" -> << S("<a>"), S("<B "), S("<br"), S("<script"), S(">"), S("</a>"), S(" k"), S("="), S("'v"), S("'"), S("/"), S("t"), S("<"), S("</b"), S("<!--"),
                          S("<!DOCTYPE x"), S("<svg>") >>
    [] Prop = "C11" -> << S("<a>"), S("</a>"), S("<b>"), S("</b>"), S("</z>"), S("</br>"), S("</>"), S("t"), S(" "), S("<br>"), S("<!---->"), S("<i/>"), S("<script>"), S("</script>"), S("<1") >>
    [] Prop = "C12" -> << S("<a>"), S("</a>"), S("<"), S("1"), S(" "), S("t"), S("<br>"), S("<br/>"), S("<!---->"), S("<script></script>"), S(">"), S("="), S("</z>"), S("<1") >>
    [] Prop = "C13" -> << S("<a"), S("<a>"), S("</a>"), S("<b>"), S("</b>"), S("<br/>"), S("/>"), S(" x"), S("="), S(">"), S("t"), S(" "), S("<svg>"), S("</svg>"), S("<!---->"), S("<![CDATA[d]]>"), S("<title>"), S("</title>") >>
    [] Prop = "C14" -> << S("<svg>"), S("</svg>"), S("<SVG>"), S("</SVG>"), S("<math>"), S("</math>"), S("<g>"), S("</g>"), S("<g/>"), S("<svg/>"), S("<a/>"), S("<br/>"),
                          S("<![CDATA["), S("]]>"), S("t") >>
    [] Prop = "C15" -> << S("<a>"), S("</a>"), S("<pre>"), S("</pre>"), S("</PRE >"), S("<br>"), S(" "), NL, S("t"), S("<!-- -->"), S("<title>  "), S("</title>"), S("</z>"), S("<1") >>
    [] Prop = "C16" -> << S("<a"), S("<br"), S("<!DOCTYPE"), S(">"), S(" "), S("x"), S("="), S("\""), S("'"), S("/"), S("`"), S("<"), S("/>"), S("</a>") >>
    [] Prop = "C17" -> << S("<a>"), S("<A >"), S("</a>"), <<LT, SLASH, 65, TAB, GT>>, S("</a  >"), S("<BR>"), S("<hr/>"), S("<B/>"), S("<!--C-->"), S("<!DOCTYPE X>"), S("<TITLE>X"), S("</title >"), S("T"), S(" ") >>
    [] Prop = "C18" -> << S("<a>"), S("</a>"), S("<b k=v>"), S("</b>"), S("<br>"), S("t"), S(" "), S("<!--c-->"), S("<!DOCTYPE x>"), S("<svg>"), S("</svg>"), S("<![CDATA[d]]>"),
                          S("<script>s"), S("</script>") >>
    [] Prop = "C19" -> << S("<a>"), S("</a>"), S("&"), S("lt"), S("#60"), S(";"), S(" "), S("x"), S("&amp;"), S("<title>"), S("</title>"), S("<Textarea>"), S("</textarea>"), S(">"), S("<pre>") >>
    [] Prop = "C20" -> << S("<a>"), S("</a>"), S("<b k='v'>"), S("</b>"), S("<br>"), S("t"), S(" "), S("<!--c-->"), S("<title>r</title>") >>
    [] Prop = "C21" -> << S("<a"), S("<!DOCTYPE"), S("<br"), S(">"), S(" id"), S(" ID"), S(" i"), S("=x"), S("='x'"), S("=\"y\""), S("="), S(" "), S("/"), S("</a>") >>
    [] Prop = "C22" -> << S("<a>"), S("</a>"), S("t"), NL, <<CR>>, <<CR, LF>>, S("</b>"), S("<!--"), S("-->"), S("<a "), S("x="), S(">"), S("<") >>
    [] Prop = "C23" -> << S("<html>"), S("</html>"), S("<HTML>"), S("</HTML>"), S("<a>"), S("</a>"), S("t"), S(" "), S("<!---->"), S("<!DOCTYPE x>"), S("<br>"), S("<html/>"), S("</z>") >>
    [] Prop = "C24" -> << S("<a>"), S("</a >"), S("<b x>"), S("</b>"), S("<br/>"), S("t"), S(" "), S("<!---->"), S("<!DOCTYPE x>"), S("<script>s"), S("</script >"), S("<1"), S("</z>"), S("<svg>"), S("</svg>"),
                          S("<![CDATA[]]>"), S("<g/>") >>
    [] Prop = "C26" -> << S("<a>"), S("<A>"), S("</a>"), S("</A>"), S("</a >"), S("</a x>"), S("<aB>"), S("</Ab>"), S("<BR>"), S("<br>"), S("<Script>"), S("</script>"), S("</Script") \o <<TAB, GT>>, S("<Svg>"), S("</sVG>"), S("t") >>
    [] Prop = "C25" -> << S("b"), S("BR"), S("r"), S("title"), S("TiTle"), S("textarea"), S("svg"), S("Math"), S("script"), S("style"), S("a"), S("rea"), S("img"),
                          S("text"), S("p"), S("col"), S("group"), S(" ") >>
    [] OTHER -> << S("x") >>

(* characters that are easily confused: control characters, Unicode whitespace, case variants of ASCII letters, letters with
   case outside of ASCII, code points whose low byte is an ASCII character, full-width forms, the ends of the planes *)
CaseLike == {8490, 383, 304, 305, 223, 7838, 233, 201, 228, 196, 937, 8486, 955, 923, 1103, 1071, 65345, 65313, 8560, 8544}
SpaceLike == {11, 28, 29, 30, 31, 133, 160, 5760, 6158, 8192, 8203, 8232, 8233, 8239, 8287, 12288, 65279}
Truncated == {288, 290, 294, 301, 303, 315, 316, 317, 318, 321, 353, 347, 349, 289, 269, 266}
Wild == {255, 256, 2048, 55295, 57344, 64976, 65308, 65310, 65533, 65535, 65536, 128512, 983100, 1114111}
Odd == (0..127) \cup CaseLike \cup SpaceLike \cup Truncated \cup Wild
PairChars == {64, 91, 92, 93, 94, 95, 96, 123, 124, 125, 126, 127, 75, 107, 83, 115, 73, 105, 48, 16, 80, 112, 45, 77} \cup CaseLike \cup {321, 353, 0}

U == [StrictOpt EXCEPT !.u = TRUE]     X == [StrictOpt EXCEPT !.x = TRUE]    L == [StrictOpt EXCEPT !.l = TRUE]
Sc == [StrictOpt EXCEPT !.s = TRUE]    Cs == [StrictOpt EXCEPT !.c = TRUE]   Ek == [StrictOpt EXCEPT !.e = TRUE]
Fix == [StrictOpt EXCEPT !.u = TRUE, !.x = TRUE, !.l = TRUE]
Lax == [Fix EXCEPT !.s = TRUE]         Mx == [Lax EXCEPT !.e = TRUE]         MxC == [Mx EXCEPT !.c = TRUE]
Opts ==
  IF Wide /\ Prop # "C02" THEN AllOpts
  ELSE CASE Prop = "C02" -> {StrictOpt}
         [] Prop \in {"C10"} -> {U, Lax, StrictOpt}
         [] Prop \in {"C11"} -> {X, [Lax EXCEPT !.u = FALSE], Lax, StrictOpt}
         [] Prop \in {"C12"} -> {L, Lax, StrictOpt}
         [] Prop \in {"C03", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23"} -> {StrictOpt, Lax}
         [] Prop \in {"C06", "C24"} -> {StrictOpt, Lax, [Lax EXCEPT !.x = FALSE]}
         [] Prop \in {"C07", "C21"} -> {StrictOpt, Mx}
         [] Prop = "C14" -> {StrictOpt, Fix, Cs}
         [] Prop \in {"C08", "C26"} -> {StrictOpt, Cs, MxC, Lax}
         [] Prop = "C25" -> {StrictOpt}
         [] Prop \in {"C01", "C13"} -> {StrictOpt, MxC}
         [] Prop = "C04" -> {StrictOpt, Cs, Mx, Fix}
         [] OTHER -> {StrictOpt, Mx, MxC, Fix}

-----------------------------------------------------------------------------
(* Design properties: what must hold of the specification itself *)
Plain(nodes) == Render(nodes, PlainRO)
Squeeze(text) == SelectSeq(text, LAMBDA c : ~IsWs(c) /\ c # SLASH /\ c # EQ)
Strip(text) == SelectSeq(text, LAMBDA c : ~IsWs(c))
Ents == << [n |-> S("lt"), r |-> Some(LT)], [n |-> S("gt"), r |-> Some(GT)], [n |-> S("amp"), r |-> Some(AMP)], [n |-> S("#60"), r |-> Some(LT)] >>

(* the source outside of start tags and doctypes, and its rendering *)
InStartTag(nodes, i) == \E j \in 2..Len(nodes) : nodes[j].t \in {"Tag", "Doctype"} /\ i > nodes[j].b /\ i <= nodes[j].e
Outside(text, nodes) == Flat([i \in 1..Len(text) |-> IF InStartTag(nodes, i) THEN <<>> ELSE <<text[i]>>])
RECURSIVE OutsideOf(_, _, _)
OutsideOf(nodes, kids, i) ==
  LET x == nodes[i]
      own == CASE x.t \in {"Doctype", "Root"} -> <<>>
               [] x.t = "Tag" -> IF x.c = None THEN <<>> ELSE x.c[1]
               [] OTHER -> OwnText(x, PlainRO, "none", TRUE, FALSE, <<>>)
  IN own \o Flat([j \in 1..Len(kids[i]) |-> OutsideOf(nodes, kids, kids[i][j])])
     \o (IF x.et = None THEN <<>> ELSE EndTagText(x.et[1], PlainRO))

Elems(nodes) ==
  LET ns == SelectSeq(nodes, LAMBDA x : x.t \in {"Tag", "Doctype"})
  IN [i \in 1..Len(ns) |-> <<ns[i].t, ns[i].name, [j \in 1..Len(ns[i].at) |-> <<ns[i].at[j].k, ns[i].at[j].v>>]>>]

(* the piece of source a completed node stands for *)
Piece(text, a, b) == SubSeq(text, a + 1, b)
PieceOK(text, f, nodes, i) ==
  LET x == nodes[i]
  IN /\ x.t \in {"Comment", "CData"} => Piece(text, x.b, x.e) = OwnText(x, PlainRO, "none", TRUE, FALSE, <<>>)
     /\ (x.t \in {"Text", "Spaces"} /\ f.drops = 0 /\ f.lts = 0) => Piece(text, x.b, x.e) = x.c[1]
     /\ (x.t \in {"Tag", "Doctype"} /\ x.e > x.b) => text[x.b + 1] = LT /\ text[x.e] = GT
     /\ (x.et # None /\ ~x.af) => Piece(text, x.et[1].b, x.et[1].e) = EndTagText(x.et[1], PlainRO)
     /\ i > 1 => nodes[x.p].b <= x.b

HasPlainRaw(nodes) == \E i \in 1..Len(nodes) : nodes[i].t = "Tag" /\ LowerS(nodes[i].name) \in PlainNames
(* the slash of a doctype is not rendered; a raw text element whose start tag is cut off has no content, afterwards an empty one *)
NoDocSlash(shape) ==
  [i \in 1..Len(shape) |->
     IF shape[i].t = "Doctype" THEN [shape[i] EXCEPT !.sc = FALSE]
     ELSE IF shape[i].t = "Tag" /\ IsRawName(shape[i].name) /\ shape[i].c = None /\ ~shape[i].sc THEN [shape[i] EXCEPT !.c = Some(<<>>)]
     ELSE shape[i]]
Ended(s) == Eof(s)
DesignOf(text, s, f) ==   \* f is s at the end of the source
  LET ok == ~Failed(f)
      ns == f.nodes
  IN CASE Prop = "C01" ->
            /\ s.h \in Handlers \/ Failed(s)
            /\ ok => /\ \A ro \in {PlainRO, MinRO, ROpt(TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE)} :
                          Len(RenderAt(ns, 1, ro, "none", Ents)) = 1
                     /\ WellLinked(ns)
       [] Prop = "C02" ->
            ok => /\ Squeeze(Plain(ns)) = Squeeze(text)
                  /\ Outside(text, ns) = OutsideOf(ns, Kids(ns), 1)
       [] Prop = "C03" ->
            ok /\ ~f.opt.e => LET p == Plain(ns)
                                  g == Parse(p, f.opt)
                              IN ~Failed(g) /\ Plain(g.nodes) = p
       [] Prop = "C04" ->
            Failed(f) => f.err[1].k \in {"WrongTag", "WrongEndTag", "UnclosedTag", "WrongHtmlDoctype", "UnrecognizedTag", "WrongCaseSensitive",
                                         "WrongSelfClosing", "CommonError"}
                         /\ (f.opt.x => f.err[1].k # "WrongEndTag") /\ (f.opt.s => f.err[1].k # "WrongSelfClosing")
                         /\ (~f.opt.c => f.err[1].k # "WrongCaseSensitive")
       [] Prop = "C05" ->
            Failed(f) => LET i == f.err[1].i
                         IN /\ i >= 0 /\ i < Len(text)
                            /\ Line(text, i) >= 1 /\ Col(text, i) <= i + 1
                            /\ f.err[1].k \in {"UnclosedTag", "UnrecognizedTag"} => text[i + 1] = LT
                            /\ f.err[1].k \in {"WrongEndTag", "WrongSelfClosing"} => text[i + 1] = GT
       [] Prop \in {"C06", "C24"} ->
            ok => WellLinked(ns) /\ \A i \in 2..Len(ns) : PieceOK(text, f, ns, i)
       [] Prop = "C07" ->
            ok => \A i \in 1..Len(ns) :
                    /\ \A j \in 1..Len(ns[i].at) : LET a == ns[i].at[j]
                                                   IN (a.k # None => a.k[1] # <<>>) /\ (a.k = None => a.q # None /\ ns[i].t = "Doctype")
                    /\ \A u, w \in NameMap(ns[i].at) : u[1] = w[1] => u = w
                    /\ Cardinality(NameMap(ns[i].at)) <= Len(ns[i].at)
       [] Prop = "C08" ->
            ok => \A i \in 2..Len(ns) : ns[i].t = "Tag" /\ IsRawName(ns[i].name) => ns[i].k = 0 /\ (ns[i].c # None \/ ns[i].sc \/ ns[i].e = ns[i].b)
       [] Prop = "C09" ->
            ok => \A i \in 2..Len(ns) :
                    /\ ns[i].t = "Comment" => ~\E j \in 1..(Len(ns[i].c[1]) - 2) : SubSeq(ns[i].c[1], j, j + 2) = CommentClose
                    /\ ns[i].t = "CData" => ~\E j \in 1..(Len(ns[i].c[1]) - 2) : SubSeq(ns[i].c[1], j, j + 2) = CDataClose
       [] Prop = "C10" ->   \* like writing the end tags at the end of the source
            (~Failed(s) /\ s.opt.u /\ s.h \in {"wait", "text"}) =>
              LET names == [i \in 1..(Len(s.chain) - 1) |-> s.nodes[s.chain[Len(s.chain) + 1 - i]].name]
                  more == Flat([i \in 1..Len(names) |-> <<LT, SLASH>> \o names[i] \o <<GT>>])
                  g == Parse(text \o more, s.opt)
              IN ok /\ ~Failed(g) /\ TreeShape(ns) = TreeShape(g.nodes)
       [] Prop = "C11" ->   \* like a source without the dropped end tags
            (s.opt.x /\ ok) => LET g == Parse(Plain(ns), s.opt) IN ~Failed(g) /\ g.drops = 0 /\ NoDocSlash(TreeShape(g.nodes)) = NoDocSlash(TreeShape(ns))
       [] Prop = "C12" ->
            (s.opt.l /\ ok) => LET g == Parse(Plain(ns), s.opt) IN ~Failed(g) /\ g.lts = 0 /\ NoDocSlash(TreeShape(g.nodes)) = NoDocSlash(TreeShape(ns))
       [] Prop = "C13" ->
            ok => \A o \in {[f.opt EXCEPT !.s = TRUE], [f.opt EXCEPT !.e = TRUE], [f.opt EXCEPT !.u = TRUE], [f.opt EXCEPT !.x = TRUE], [f.opt EXCEPT !.l = TRUE]} :
                    LET g == Parse(text, o) IN ~Failed(g) /\ g.nodes = ns
       [] Prop = "C14" ->
            (~Failed(s) /\ s.h \in {"wait", "text"}) => (s.sp # None <=> \E i \in 2..Len(s.chain) : LowerS(s.nodes[s.chain[i]].name) \in ForeignNames)
       [] Prop = "C15" ->
            (ok /\ ~f.opt.e) => LET m == Render(ns, MinRO)
                      g == Parse(m, f.opt)
                  IN /\ Strip(m) = Strip(Plain(ns))
                     /\ ~Failed(g) /\ Render(g.nodes, MinRO) = m
       [] Prop = "C16" ->
            (ok /\ ~f.opt.e) => LET q == Render(ns, [PlainRO EXCEPT !.q = TRUE])
                                    g == Parse(q, f.opt)
                                IN ~Failed(g) /\ Elems(g.nodes) = Elems(ns)
       [] Prop = "C17" ->
            ok => LET low(x) == [x EXCEPT !.name = LowerS(@), !.et = IF @ = None THEN None ELSE Some([@[1] EXCEPT !.c = LowerS(@)])]
                      trim(x) == [x EXCEPT !.et = IF @ = None THEN None ELSE Some([@[1] EXCEPT !.c = TrimEnd(@)])]
                      on(f1(_)) == [i \in 1..Len(ns) |-> IF ns[i].t = "Tag" THEN f1(ns[i]) ELSE ns[i]]
                  IN /\ Render(ns, [PlainRO EXCEPT !.l = TRUE]) = Plain(on(low))
                     /\ Render(ns, [PlainRO EXCEPT !.e = TRUE]) = Plain(on(trim))
                     /\ Render(ns, [PlainRO EXCEPT !.l = TRUE, !.e = TRUE]) = Render(on(trim), [PlainRO EXCEPT !.l = TRUE])
       [] Prop = "C18" ->
            ok => \A i \in 2..Len(ns) :
                    ns[i].t = "Tag" =>
                      /\ RenderAt(ns, i, PlainRO, "none", <<>>)[1] =
                           StartTagText(ns[i], PlainRO) \o RenderAt(ns, i, PlainRO, "html", <<>>)[1]
                           \o (IF ns[i].et = None THEN <<>> ELSE EndTagText(ns[i].et[1], PlainRO))
                      /\ Len(RenderAt(ns, i, PlainRO, "text", <<>>)[1]) <= Len(RenderAt(ns, i, PlainRO, "html", <<>>)[1])
       [] Prop = "C19" ->
            ok => LET dec == [PlainRO EXCEPT !.d = TRUE]
                      enc == [PlainRO EXCEPT !.n = TRUE]
                  IN /\ (\A i \in 1..Len(text) : text[i] # AMP) => Render(ns, dec) = Plain(ns)
                     /\ \A i \in 2..Len(ns) : ns[i].c # None => DecodeText(Ents, EncodeText(ns[i].c[1])) = ns[i].c[1]
                     /\ (~HasPlainRaw(ns)) => Render(ns, enc) = Plain(ns)
       [] Prop = "C20" ->
            ok => \A i \in 1..Len(ns) : LET c == Clone(ns, i)
                                        IN Render(c, PlainRO) = RenderAt(ns, i, PlainRO, "none", <<>>)[1] /\ c[1].p = 0 /\ c[1].b = 0
       [] Prop = "C21" ->
            ok => LET idx == IdIndex(ns) IN \A u, w \in idx : u[1] = w[1] => u = w
       [] Prop = "C22" ->
            LET norm == LineNorm(text)
                bare == \A i \in 1..Len(text) : text[i] # CR
            IN /\ norm = <<>> <=> text = <<>>
               /\ norm # <<>> => norm[Len(norm)] = LF
               /\ bare => norm = text \/ norm = text \o <<LF>>
               /\ Cardinality({i \in 1..Len(norm) : norm[i] = LF})
                    = Cardinality({i \in 1..Len(text) : text[i] = LF}) + (IF text # <<>> /\ text[Len(text)] # LF THEN 1 ELSE 0)
       [] Prop = "C25" ->
            \A t \in {"Root", "Doctype", "Comment", "Text", "Spaces", "Tag", "TagEnd", "CData"} :
              /\ AllowInsert(text, t) = AllowInsert(LowerS(text), t)
              /\ AllowInsert(text, "CData") => LowerS(text) \in ForeignNames
              /\ AllowInsert(text, t) => AllowInsert(text, "Text")
       [] Prop = "C23" ->
            ok => LET d == IsDocument(ns, 1) IN (~d[1] => d[2]) /\ \A i \in 2..Len(ns) : IsDocument(ns, i) = <<FALSE, TRUE>>
       [] Prop = "C26" ->
            (~Failed(f) /\ f.opt.c) => \A i \in 2..Len(ns) : ns[i].et # None => TrimEnd(ns[i].et[1].c) = ns[i].name
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The transition system *)
OptBits(o) == (IF o.c THEN 1 ELSE 0) + (IF o.e THEN 2 ELSE 0) + (IF o.s THEN 4 ELSE 0) + (IF o.u THEN 8 ELSE 0)
              + (IF o.x THEN 16 ELSE 0) + (IF o.l THEN 32 ELSE 0)

Init == opt \in Opts /\ src = <<>> /\ n = 0 /\ st = InitState(opt) /\ good = TRUE

(* a text that completes what is open, so that most behaviours also have a version which is accepted *)
Completion(s) ==
  IF Failed(s) THEN <<>>
  ELSE LET ends == [i \in 1..(Len(s.chain) - 1) |-> <<LT, SLASH>> \o s.nodes[s.chain[Len(s.chain) + 1 - i]].name \o <<GT>>]
           all == Flat(ends)
           opened == IF s.cur = 0 THEN <<>>
                     ELSE LET name == s.nodes[s.cur].name   \* its start tag is not finished yet
                          IN IF s.h = "tagname" \/ s.nodes[s.cur].t # "Tag" \/ LowerS(name) \in VoidNames
                             THEN Flat(SubSeq(ends, 2, Len(ends))) ELSE all
       IN CASE s.h \in {"wait", "text", "raw"} -> all
            [] s.h \in {"tagwait", "key", "tagname"} -> <<GT>> \o opened
            [] s.h = "value" -> (IF s.mark \in {DQ, SQ} THEN <<s.mark, GT>> ELSE <<GT>>) \o opened
            [] s.h = "comment" -> (IF s.ci = "XMLCDATA" THEN CDataClose ELSE CommentClose) \o all
            [] s.h \in {"selfclose", "tagend"} -> <<GT>> \o all
            [] OTHER -> <<>>

(* a behaviour: its source with the digest of what the specification expects, for the harness; TRUE if the design holds *)
Judge(tag, text, s) ==
  LET f == Ended(s)
  IN /\ PrintT("B " \o tag \o " " \o ToString(OptBits(opt)) \o " " \o ToString(DigestOf(Prop, text, f, Ents)) \o " " \o ToString(text))
     /\ Len(text) > 300 \/ DesignOf(text, s, f)

FeedToken(t) ==
  /\ n < Depth
  /\ ~Failed(st)
  /\ Mode \notin {"pairs", "runs"}
  /\ LET text == src \o t
         next == Feed(st, t)
         more == IF Prop = "C25" THEN <<>> ELSE Completion(next)
         j1 == Judge(st.h, text, next)
         j2 == more = <<>> \/ Judge("end", text \o more, Feed(next, more))
     IN /\ src' = text
        /\ st' = next
        /\ good' = (j1 /\ j2)   \* judged on every transition, also on those into a known state
  /\ n' = n + 1
  /\ opt' = opt

(* any character, in any control state: the behaviour is judged and emitted, the exploration does not go on from it *)
FeedOdd ==
  /\ Mode = "chars"
  /\ ~Failed(st)
  /\ \E c \in Odd :
       LET next == Step(st, c)
           text == Append(src, c)
           more == Completion(next)
           j1 == Judge("odd_" \o st.h, text \o more, Feed(next, more))
           j2 == Failed(next) \/ more = <<>> \/ Judge("oddcut_" \o st.h, text, next)
       IN good' = (j1 /\ j2)
  /\ UNCHANGED <<opt, src, n, st>>

(* an end tag (or a start tag) whose name differs in one character *)
PairTexts(x, y) ==
  { S("<a") \o <<x>> \o S(">t</a") \o <<y>> \o S(">"),
    S("<a") \o <<x>> \o S("b k>t</a") \o <<y>> \o S("b >") }
Replace(s, i, y) == [s EXCEPT ![i] = y]
NearTexts(name, y) ==
  UNION { LET o == Replace(name, i, y)
          IN { <<LT>> \o name \o S(">t</") \o o \o S("></") \o name \o S(">x"),
               <<LT>> \o o \o S(">t</") \o name \o S("></") \o o \o S(">"),
               <<LT>> \o o \o S("><b/> <i> </i></") \o o \o S(">") }
          \cup (IF i = 1 /\ ~IsAlpha(y) THEN {} ELSE { <<LT>> \o o \o S(">") }) : i \in 1..Len(name) }
NearNames == {S("script"), S("title"), S("style"), S("textarea"), S("svg"), S("math"), S("br"), S("link"), S("pre"), S("html")}
NearChars == {64, 91, 96, 123, 0, 32, 16, 19, 83, 115, 75, 107, 73, 105} \cup {8490, 383, 304, 305, 65345, 371, 321, 353}
PairSet == UNION {PairTexts(x, y) : x \in PairChars, y \in PairChars} \cup UNION {NearTexts(w, y) : w \in NearNames, y \in NearChars}

(* names of elements: HTML (also obsolete ones), SVG, MathML, custom; the meaning of none of them depends on this list *)
DictNames ==
  {S("a"), S("abbr"), S("acronym"), S("address"), S("applet"), S("area"), S("article"), S("aside"), S("audio"), S("b"), S("base"),
   S("basefont"), S("bdi"), S("bdo"), S("bgsound"), S("big"), S("blink"), S("blockquote"), S("body"), S("br"), S("button"), S("canvas"),
   S("caption"), S("center"), S("cite"), S("code"), S("col"), S("colgroup"), S("command"), S("content"), S("data"), S("datalist"), S("dd"),
   S("del"), S("details"), S("dfn"), S("dialog"), S("dir"), S("div"), S("dl"), S("dt"), S("element"), S("em"), S("embed"), S("fieldset"),
   S("figcaption"), S("figure"), S("font"), S("footer"), S("form"), S("frame"), S("frameset"), S("h1"), S("h2"), S("h3"), S("h4"), S("h5"),
   S("h6"), S("head"), S("header"), S("hgroup"), S("hr"), S("html"), S("i"), S("iframe"), S("image"), S("img"), S("input"), S("ins"),
   S("isindex"), S("kbd"), S("keygen"), S("label"), S("legend"), S("li"), S("link"), S("listing"), S("main"), S("map"), S("mark"),
   S("marquee"), S("math"), S("menu"), S("menuitem"), S("meta"), S("meter"), S("multicol"), S("nav"), S("nextid"), S("nobr"), S("noembed"),
   S("noframes"), S("noscript"), S("object"), S("ol"), S("optgroup"), S("option"), S("output"), S("p"), S("param"), S("picture"),
   S("plaintext"), S("portal"), S("pre"), S("progress"), S("q"), S("rb"), S("rbc"), S("rp"), S("rt"), S("rtc"), S("ruby"), S("s"), S("samp"),
   S("script"), S("search"), S("section"), S("select"), S("selectedcontent"), S("shadow"), S("slot"), S("small"), S("source"), S("spacer"),
   S("span"), S("strike"), S("strong"), S("style"), S("sub"), S("summary"), S("sup"), S("svg"), S("table"), S("tbody"), S("td"),
   S("template"), S("textarea"), S("tfoot"), S("th"), S("thead"), S("time"), S("title"), S("tr"), S("track"), S("tt"), S("u"), S("ul"),
   S("var"), S("video"), S("wbr"), S("xmp"), S("animate"), S("animateMotion"), S("animateTransform"), S("circle"), S("clipPath"), S("defs"),
   S("desc"), S("ellipse"), S("feBlend"), S("feGaussianBlur"), S("filter"), S("foreignObject"), S("g"), S("glyph"), S("line"),
   S("linearGradient"), S("marker"), S("mask"), S("metadata"), S("mpath"), S("path"), S("pattern"), S("polygon"), S("polyline"),
   S("radialGradient"), S("rect"), S("set"), S("stop"), S("switch"), S("symbol"), S("text"), S("textPath"), S("tref"), S("tspan"), S("use"),
   S("view"), S("annotation"), S("annotation-xml"), S("maction"), S("merror"), S("mfrac"), S("mglyph"), S("mi"), S("mn"), S("mo"), S("mover"),
   S("mpadded"), S("mphantom"), S("mroot"), S("mrow"), S("ms"), S("mspace"), S("msqrt"), S("mstyle"), S("msub"), S("msup"), S("mtable"),
   S("mtd"), S("mtext"), S("mtr"), S("munder"), S("semantics"), S("none"), S("mprescripts"), S("xml"), S("x-a"), S("my-tag"), S("o:p"),
   S("fb:like"), S("amp-img"), S("link-x")}
DictTexts(w) ==
  { <<LT>> \o w \o S(" k><b> </b> u</") \o w \o S("> t"), <<LT>> \o w \o S(">x"), <<LT>> \o w \o S("/> <i>"), S("<a></") \o w \o S("></a>"),
    S("<svg><") \o w \o S("/><![CDATA[<b>]]></svg>"), <<LT>> \o w \o S("> <!-- c --><") \o w \o S("> y </") \o w \o S(" ></") \o w \o S(">"),
    S("<p> <b> x  y </b><") \o w \o S(" id=k> z  z </") \o w \o S("> &lt;</p>") }
DictSet == UNION {DictTexts(w) : w \in DictNames}

(* raw text that ends with a part of the end tag, and white space *)
Times(k, t) == FoldLeft(LAMBDA acc, i : acc \o t, <<>>, [i \in 1..k |-> i])
RawEnds(name) ==
  LET full == <<LT, SLASH>> \o name
      open == <<LT>> \o name \o <<GT>>
  IN UNION {{ open \o SubSeq(full, i, Len(full)) \o Times(k, w) \o <<GT>> \o full \o S(">x"),
              open \o S("y") \o SubSeq(full, 1, i) \o Times(k, w) \o <<GT>> \o full \o S(">x"),
              open \o full \o Times(k, w) \o SubSeq(full, i, Len(full)) \o Times(k, w) \o <<GT>> }
             : i \in 1..Len(full), k \in {0, 1, 2, 5, 11}, w \in {S(" "), <<LF>>, S("-"), <<160>>}}
RawSet == UNION {RawEnds(w) : w \in RawNames \cup {S("STYLE")}}

(* texts in which a piece is repeated: before, piece, after *)
Runs ==
  { <<S("<!--"), S("-"), S(">")>>, <<S("<!--x"), S("-"), S("-->t")>>, <<S("<!--"), S("x"), S("-->")>>, <<S("<!"), S("-"), S(" -->")>>,
    <<S("<svg><g><![CDATA["), S("]"), S(">")>>, <<S("<svg><g><![CDATA["), S("x"), S("]]>")>>, <<S("<svg>"), S("<svg>"), S("<g/></svg><a/>")>>,
    <<S("<math><g>"), S("</g><g>"), S("<![CDATA[]]>")>>, <<S("<svg>"), S("</svg><svg>"), S("<g/>")>>,
    <<S("<a"), S(" "), S(">t")>>, <<S("<a>t</a"), S(" "), S(">")>>, <<S("<a>t</a"), <<TAB>>, S(">")>>, <<S("<a>t</"), S(" "), S("a>")>>,
    <<S("<a k"), S("="), S("v>")>>, <<S("<a k"), S(" "), S("=v>")>>, <<S("<a k="), S(" "), S("v>")>>, <<S("<a k="), S("\""), S(">")>>,
    <<S("<a k='v'"), S("'"), S(">")>>, <<S("<a k='"), S("v"), S("'>")>>, <<S("<a k="), S("/"), S(">")>>, <<S("<a k='"), S(" "), S("'>")>>,
    <<S("<a"), S(" x"), S(">")>>, <<S("<a"), S(" id=x"), S(">")>>, <<S("<a x=1"), S(" X"), S("=2>")>>, <<S("<i id=x></i>"), S("<b id=x></b>"), S("")>>,
    <<S("<a"), S("/"), S(">")>>, <<S("<br"), S("/"), S(">")>>, <<S("<br"), S(" /"), S(">")>>, <<S("<a"), S("b"), S(">t")>>, <<S("<a"), S("B"), S(" k>")>>,
    <<<<>>, S("<"), S("a>")>>, <<<<>>, S("<"), S("1")>>, <<S("t"), S("< "), S("")>>, <<S(" "), S("<"), S("/a>")>>,
    <<<<>>, S("<a>"), <<>>>>, <<S("<a>"), S("<A>"), S("t</a>")>>, <<S("<a>"), S("<br>"), S("</a>")>>, <<S("<a>"), S("<i></i>"), S(" ")>>, <<S("<a>"), S("</z>"), S(" ")>>,
    <<S("t"), S("</z>"), S("t")>>, <<S("<a> "), S("</z> "), S("<b>")>>, <<S("<a>"), S("</a>"), S("<b>")>>,
    <<S("<pre>"), S(" "), S("</pre>")>>, <<S("<pre>"), S("<pre>"), S("  <b>  </b></pre>  t")>>, <<S("<a>"), S(" "), S("t </a>")>>, <<S("<a>"), S(" "), S("</a>")>>, <<S("<a>t"), <<LF>>, S("t<b></b>")>>,
    <<S("<a>"), S(" "), S("<b></b>")>>, <<S(" "), S("t "), S("<!--c-->")>>,
    <<S("<a>"), <<LF>>, S("</b>")>>, <<S("<a>"), <<CR>>, S("</b>")>>, <<S("<a>"), <<CR, LF>>, S("</b>")>>, <<S("<a>"), <<LF, CR>>, S("</b>")>>, <<S("<a>"), S("x"), S("</b>")>>, <<S("<a>"), <<233>>, S("</b>")>>,
    <<S("<a>"), <<128512>>, S("</b>")>>, <<S("<a>"), <<12>>, S("<!x")>>,
    <<S("<a>"), S("&lt;"), S("</a>")>>, <<S("<a>"), S("&"), S("lt;")>>, <<S("<a>&"), S("x"), S(";")>>, <<S("<title>"), S("<&>"), S("</title>")>>,
    <<S("<title>"), S("x"), S("</title>")>>, <<S("<script>"), S("</"), S("script>")>>, <<S("<script>"), S("<"), S("/script>")>>, <<S("<style>"), S("</style"), S(">")>>,
    <<S("<script>"), S(" "), S("</script>")>>, <<S("<textarea></textarea"), S(" "), S(">")>>,
    <<S("<!DOCTYPE"), S(" "), S(">")>>, <<S("<!DOCTYPE "), S("x "), S(">")>>, <<S("<!DOCTYPE x"), S(" 'y'"), S("><html></html>")>>, <<S(" "), S("<!DOCTYPE x>"), S("<html></html>")>>,
    <<S("<html></html>"), S(" "), S("")>>, <<S("<html></html>"), S("<!---->"), S("")>>, <<S("<!---->"), S(" "), S("<HTML></html>")>>, <<S("<html>"), S("<html>"), S("")>> }
Counts == (0..9) \cup {15, 16, 17, 31, 32, 33, 63, 64, 65, 80}
BigCounts == {100, 127, 128, 129, 199, 200, 201, 255, 256, 257} \cup (IF Depth > 1 THEN {300, 511, 512, 513, 1000} ELSE {})
RunSet(counts) == { r[1] \o Times(k, r[2]) \o r[3] : r \in Runs, k \in counts }
JudgeWhole(tag, text) ==
  LET next == Feed(st, text)
      more == Completion(next)
      j1 == Judge(tag, text, next)
      j2 == more = <<>> \/ Judge(tag \o "end", text \o more, Feed(next, more))
  IN good' = (j1 /\ j2)
(* in two steps, first a share of the texts and then one of them, so that the workers divide the texts *)
Shares == 16
Share(text) == 1 + FoldLeft(LAMBDA a, c : (a * 3 + c) % Shares, 0, text)
Pairs ==
  /\ Mode \in {"pairs", "runs"}
  /\ IF n = 0 THEN n' \in 1..Shares /\ UNCHANGED good
     ELSE /\ UNCHANGED n
          /\ \/ Mode = "pairs" /\ \E text \in {t \in PairSet \cup RawSet \cup DictSet : Share(t) = n} : JudgeWhole("pair", text)
             \/ Mode = "pairs" /\ \E text \in {t \in RunSet(Counts) : Share(t) = n} : JudgeWhole("run", text)
             \/ Mode = "runs" /\ \E text \in {t \in RunSet(BigCounts) : Share(t) = n} : JudgeWhole("bigrun", text)
  /\ UNCHANGED <<opt, src, st>>

(* one action per handler that receives the token, so that coverage is reported per handler *)
InWait == st.h = "wait" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InText == st.h = "text" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InUnkTag == st.h = "unktag" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InTagName == st.h = "tagname" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InSelfClose == st.h = "selfclose" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InTagWait == st.h = "tagwait" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InKey == st.h = "key" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InValue == st.h = "value" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InTagEnd == st.h = "tagend" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InRaw == st.h = "raw" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InComment == st.h = "comment" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InExcl == st.h = "excl" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
InDoctype == st.h = "doctype" /\ \E i \in 1..Len(Tok) : FeedToken(Tok[i])
Next == InWait \/ InText \/ InUnkTag \/ InTagName \/ InSelfClose \/ InTagWait \/ InKey \/ InValue \/ InTagEnd \/ InRaw
        \/ InComment \/ InExcl \/ InDoctype \/ FeedOdd \/ Pairs
Spec == Init /\ [][Next]_vars

(* control state: what later behaviour depends on, with bounded memory of names and texts *)
Tail2(s) == IF Len(s) <= 2 THEN s ELSE SubSeq(s, Len(s) - 1, Len(s))
Cap(k, m) == IF k > m THEN m ELSE k
NameClass(s) == LET x == LowerS(s) IN IF x \in ForeignNames THEN "foreign" ELSE IF IsRawName(s) THEN "raw" ELSE IF x \in VoidNames THEN "void"
                                      ELSE IF x = S("pre") THEN "pre" ELSE IF x = s THEN "lower" ELSE "mixed"
Abs ==
  IF Failed(st) THEN <<opt, st.err[1].k>>
  ELSE <<opt, st.h, st.ci, st.tc, st.det, st.mark, st.sp # None, st.rep, st.chk # 0,
         NameClass(st.nodes[Top(st)].name), Cap(Len(st.chain), 3),
         IF st.cur = 0 THEN "none" ELSE st.nodes[st.cur].t,
         Cap(st.nodes[Top(st)].k, 2),
         IF st.h \in {"tagend", "raw"} THEN <<LowerS(st.buf) = LowerS(st.nodes[Top(st)].name), Tail2(st.buf)>>
         ELSE IF st.h \in {"comment", "excl"} THEN Tail2(st.buf) ELSE <<st.buf = <<>>>>,
         Cap(st.drops, 1), Cap(st.lts, 1)>>
Ctl ==
  IF Failed(st) THEN <<opt, st.err[1].k>>
  ELSE <<opt, st.h, st.ci, st.tc, st.det, st.mark, st.sp # None, st.rep, NameClass(st.nodes[Top(st)].name),
         IF st.cur = 0 THEN "none" ELSE st.nodes[st.cur].t, IF st.h \in {"tagend", "comment", "raw", "excl"} THEN Tail2(st.buf) ELSE <<>>>>
View == IF Mode = "chars" THEN <<good, Ctl>> ELSE IF Mode = "abs" THEN <<good, Abs>> ELSE IF Mode = "full" THEN <<good, opt, src>> ELSE <<good, opt, n>>

Design == good
=============================================================================
