------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* A digest of what the specification expects to be observed of a finished *)
(* parse, as far as a property is about it.  Every emitted behaviour       *)
(* carries its digest; the harness computes the same digest from the real  *)
(* code.  A behaviour with a different digest is recorded in full and      *)
(* judged by Trace.tla, which alone decides.  The digest makes it possible *)
(* to replay all emitted behaviours and not only a sample of them.         *)
(***************************************************************************)
EXTENDS HtmlTree

Mix(h, x) == (h * 37 + x + 2) % 1000003
Mixes(h, t) == FoldLeft(Mix, Mix(h, Len(t)), t)
MixB(h, b) == Mix(h, IF b THEN 1 ELSE 0)
MixO(h, o) == IF o = None THEN Mix(h, 0) ELSE Mixes(Mix(h, 1), o[1])
MixQ(h, o) == IF o = None THEN Mix(h, 0) ELSE Mix(Mix(h, 1), o[1])

TypeCode(t) == CASE t = "Root" -> 1 [] t = "Doctype" -> 2 [] t = "Comment" -> 3 [] t = "Text" -> 4 [] t = "Spaces" -> 5
                 [] t = "Tag" -> 6 [] t = "TagEnd" -> 7 [] t = "CData" -> 8
KindCode(k) == CASE k = "WrongTag" -> 1 [] k = "WrongEndTag" -> 2 [] k = "UnclosedTag" -> 3 [] k = "WrongHtmlDoctype" -> 4
                 [] k = "UnrecognizedTag" -> 5 [] k = "WrongCaseSensitive" -> 6 [] k = "WrongSelfClosing" -> 7 [] k = "CommonError" -> 8

DStruct(h0, n) ==
  LET h1 == MixO(Mix(Mix(Mix(h0, TypeCode(n.t)), n.p), n.k), n.c)
      h2 == MixB(MixB(Mixes(h1, n.name), n.vo), n.sc)
  IN MixO(h2, IF n.et = None THEN None ELSE Some(n.et[1].c))
DAttr(h, a) == MixQ(MixO(MixO(h, a.k), a.v), a.q)
DAttrs(h, n) == IF n.m THEN FoldLeft(DAttr, Mix(h, Len(n.at)), n.at) ELSE h
(* 0 where the specification leaves the position open *)
DRange(h, n) ==
  LET open == n.e = n.b \/ n.t = "Root"
      h1 == Mix(Mix(Mix(h, n.b), IF open THEN 0 ELSE n.e), n.i)
  IN IF n.et = None \/ n.af THEN Mix(h1, 0) ELSE Mix(Mix(h1, n.et[1].b), n.et[1].e)
DNodes(h, f, D(_, _)) == FoldLeft(D, Mix(h, Len(f.nodes)), f.nodes)
DErr(h, f) == FoldLeft(Mixes, Mix(h, KindCode(f.err[1].k)), f.err[1].a)
DRender(h, f, ro, ents) == Mixes(h, RenderAt(f.nodes, 1, ro, "none", ents)[1])
DAll(f) ==
  LET h1 == DNodes(DNodes(1, f, DStruct), f, DAttrs)
  IN DRender(FoldLeft(LAMBDA h, n : MixB(h, n.af), h1, f.nodes), f, PlainRO, <<>>)

DCount(n) == IF n > 100 THEN 6 ELSE IF n > 40 THEN 40 ELSE n - 1   \* how many nodes are rendered on their own

(* f: the finished parse of text *)
DigestOf(prop, text, f, ents) ==
  LET ok == ~Failed(f)
  IN CASE prop = "C02" -> IF ok THEN DRender(1, f, PlainRO, <<>>) ELSE 0
       [] prop = "C03" -> IF ~ok \/ f.opt.e THEN 0 ELSE DRender(1, f, PlainRO, <<>>)
       [] prop = "C04" -> IF ok THEN 0 ELSE DErr(1, f)
       [] prop = "C05" -> IF ok THEN 0 ELSE LET i == f.err[1].i IN Mix(Mix(Mix(DErr(1, f), i), Line(text, i)), Col(text, i))
       [] prop = "C06" -> IF ok THEN DNodes(1, f, DStruct) ELSE 0
       [] prop = "C07" -> IF ok THEN DNodes(1, f, DAttrs) ELSE 0
       [] prop = "C10" -> IF ok THEN DAll(f) ELSE Mix(DErr(1, f), f.err[1].i)
       [] prop \in {"C08", "C09", "C11", "C12", "C14", "C26"} -> IF ok THEN DAll(f) ELSE DErr(1, f)
       [] prop = "C15" -> IF ok THEN DRender(1, f, MinRO, <<>>) ELSE 0
       [] prop = "C16" -> IF ok THEN DRender(1, f, [PlainRO EXCEPT !.q = TRUE], <<>>) ELSE 0
       [] prop = "C17" -> IF ok THEN FoldLeft(LAMBDA h, ro : DRender(h, f, ro, <<>>), 1,
                               << [PlainRO EXCEPT !.l = TRUE], [PlainRO EXCEPT !.e = TRUE], [PlainRO EXCEPT !.c = TRUE],
                                  [PlainRO EXCEPT !.v = TRUE], [PlainRO EXCEPT !.l = TRUE, !.e = TRUE, !.c = TRUE, !.v = TRUE] >>)
                          ELSE 0
       [] prop = "C18" -> IF ok THEN FoldLeft(LAMBDA h, i : MixO(MixO(h, RenderAt(f.nodes, i, PlainRO, "html", <<>>)),
                                                                 RenderAt(f.nodes, i, PlainRO, "text", <<>>)),
                               1, [i \in 1..DCount(Len(f.nodes)) |-> i + 1])
                          ELSE 0
       [] prop = "C19" -> IF ok THEN FoldLeft(LAMBDA h, ro : DRender(h, f, ro, ents), 1,
                               << [PlainRO EXCEPT !.d = TRUE], [PlainRO EXCEPT !.n = TRUE], [PlainRO EXCEPT !.d = TRUE, !.m = TRUE] >>)
                          ELSE 0
       [] prop = "C21" -> IF ok THEN LET idx == IdIndex(f.nodes)
                                         hit(v) == (CHOOSE u \in idx : u[1] = v)[2]
                                     IN FoldLeft(LAMBDA h, n : FoldLeft(LAMBDA g, a :
                                          IF a.k # None /\ a.v # None /\ EqIC(a.k[1], IdName) THEN Mix(g, hit(a.v[1])) ELSE g, h, n.at), 1, f.nodes)
                          ELSE 0
       [] prop = "C23" -> IF ok THEN FoldLeft(LAMBDA h, i : LET d == IsDocument(f.nodes, i) IN MixB(MixB(h, d[1]), d[2]),
                                              1, [i \in 1..Len(f.nodes) |-> i])
                          ELSE 0
       [] prop = "C24" -> IF ok THEN DNodes(1, f, DRange) ELSE 0
       [] OTHER -> 0
=============================================================================
