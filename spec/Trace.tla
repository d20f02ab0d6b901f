------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every record of what the real code did is checked against  *)
(* the specification.  One step consumes one record.  Prop selects the     *)
(* property that is decided.                                               *)
(***************************************************************************)
EXTENDS HtmlBuild, HtmlWorld, HtmlLife, HtmlCompose, Json, IOUtils, TLC

Prop == IOEnv.PROP
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

-----------------------------------------------------------------------------
(* "" or the name of what is wrong, or "skip" when the property says nothing about the record *)
Skip == "skip"
First(checks) ==   \* a sequence of <<holds, name>>
  LET bad == SelectSeq(checks, LAMBDA c : ~c[1]) IN IF bad = <<>> THEN "" ELSE bad[1][2]

Model(r) == Parse(r.src, r.o)
ModelPlain(m) == Render(m.nodes, PlainRO)
SameKind(m, r) == r.err # <<>> /\ m.err[1].k = r.err[1].k /\ m.err[1].a = r.err[1].a

(* everything a user sees of a parse, apart from source positions *)
Full(m, r) ==
  IF Failed(m) THEN First(<<<<r.res = "err", "accepted">>, <<r.res # "err" \/ SameKind(m, r), "error kind">>>>)
  ELSE IF r.res # "ok" THEN r.res
  ELSE First(<<<<Len(r.nodes) = Len(m.nodes) /\ TreeShape(r.nodes) = TreeShape(m.nodes), "tree">>,
               <<[i \in 1..Len(r.nodes) |-> r.nodes[i].af] = [i \in 1..Len(m.nodes) |-> m.nodes[i].af], "auto_fix">>,
               <<r.plain = <<ModelPlain(m)>>, "rendering">>>>)

-----------------------------------------------------------------------------
C01(r) ==
  LET documented(d) == RenderAt(r.nodes, d.at, d.ro, d.inner, <<>>) = None \/ (r.nodes[d.at].t = "Root" /\ r.nodes[d.at].k = 0)
  IN First(<<<<r.res \in {"ok", "err"}, "parse panicked">>, <<r.px = <<>>, "operation panicked">>,
             <<r.res # "ok" \/ r.plain # <<>>, "rendering panicked">>,
             <<\A i \in 1..Len(r.rd) : r.rd[i].out # <<>> \/ documented(r.rd[i]), "rendering panicked">>>>)

Squeeze(text) == SelectSeq(text, LAMBDA c : ~IsWs(c) /\ c # SLASH /\ c # EQ)
C02(r) ==
  IF r.o # StrictOpt \/ r.res = "err" THEN Skip
  ELSE LET m == Model(r)
       IN IF r.res = "panic" THEN (IF Failed(m) THEN Skip ELSE "panic")
          ELSE First(<<<<r.plain # <<>>, "panic">>, <<r.plain = <<>> \/ Squeeze(r.plain[1]) = Squeeze(r.src), "characters lost or added">>,
                       <<Failed(m) \/ r.plain = <<ModelPlain(m)>>, "rendering">>>>)

C03(r) ==
  IF r.res # "ok" \/ r.o.e THEN Skip
  ELSE First(<<<<r.plain # <<>>, "panic">>, <<r.res2 = "ok", "rendered output is rejected">>, <<r.plain2 = r.plain, "rendered output changes">>>>)

C04(r) ==
  LET m == Model(r)
  IN IF Failed(m) THEN First(<<<<r.res = "err", "accepted">>, <<r.res # "err" \/ SameKind(m, r), "error kind">>>>)
     ELSE IF r.res # "ok" THEN r.res ELSE ""

C05(r) ==
  IF r.res # "err" THEN (IF r.res = "panic" THEN "panic" ELSE Skip)
  ELSE LET e == r.err[1]
           m == Model(r)
           region == RegionText(e.line, e.col, e.i)
       IN First(<<<<e.k # "Io", "not a parse error">>,
                  <<~(Failed(m) /\ SameKind(m, r)) \/ m.err[1].i = e.i, "index">>,
                  <<e.i >= 0 /\ e.i < Len(r.src), "index outside of the source">>,
                  <<~(e.i >= 0 /\ e.i < Len(r.src)) \/ (e.line = Line(r.src, e.i) /\ e.col = Col(r.src, e.i)), "line and column">>,
                  <<e.disp = region \o e.kd, "message">>,
                  <<~(Failed(m) /\ SameKind(m, r)) \/ e.kd = KindText(m.err[1].k, m.err[1].a), "message of the kind">>>>)

Struct(n) == [t |-> n.t, p |-> n.p, k |-> n.k, c |-> n.c, name |-> n.name, vo |-> n.vo, sc |-> n.sc,
              et |-> IF n.et = None THEN None ELSE Some(n.et[1].c)]
C06(r) ==
  LET m == Model(r)
  IN IF Failed(m) THEN Skip
     ELSE IF r.res # "ok" THEN r.res
     ELSE First(<<<<Len(m.nodes) = Len(r.nodes), "number of nodes">>,
                  <<[i \in 1..Len(r.nodes) |-> Struct(r.nodes[i])] = [i \in 1..Len(m.nodes) |-> Struct(m.nodes[i])], "tree">>>>)

AttrLists(nodes) ==
  LET ns == SelectSeq(nodes, LAMBDA n : n.m)
  IN [i \in 1..Len(ns) |-> [j \in 1..Len(ns[i].at) |-> AttrShape(ns[i].at[j])]]
MapOK(n) == {<<n.map[j][1], n.map[j][2]>> : j \in 1..Len(n.map)} = NameMap(n.at)
C07(r) ==
  LET m == Model(r)
  IN IF r.res = "ok" /\ \E i \in 1..Len(r.nodes) : ~MapOK(r.nodes[i]) THEN "name lookup"
     ELSE IF Failed(m) THEN Skip
     ELSE IF r.res # "ok" THEN r.res
     ELSE First(<<<<AttrLists(m.nodes) = AttrLists(r.nodes), "attributes">>>>)

HasRaw(nodes) == \E i \in 1..Len(nodes) : nodes[i].t = "Tag" /\ IsRawName(nodes[i].name)
HasPiece(src, a, b) == \E i \in 1..(Len(src) - 1) : src[i] = a /\ src[i + 1] = b
HasForeign(nodes) == \E i \in 1..Len(nodes) : nodes[i].t = "Tag" /\ LowerS(nodes[i].name) \in ForeignNames
C08(r) == LET m == Model(r) IN IF HasRaw(m.nodes) \/ r.res = "panic" THEN Full(m, r) ELSE Skip
C09(r) == LET m == Model(r) IN IF HasPiece(r.src, LT, BANG) THEN Full(m, r) ELSE Skip
C10(r) ==   \* something is open at the end
  LET s == Feed(InitState(r.o), r.src)
      m == Eof(s)
  IN IF ~Failed(s) /\ (Len(s.chain) > 1 \/ s.ci \notin {"Unkown", "AbstractRoot", "TextNode"})
     THEN LET f == Full(m, r)
          IN IF f = "" /\ Failed(m) /\ m.err[1].i # r.err[1].i THEN "position of the unclosed tag" ELSE f
     ELSE Skip
C11(r) ==
  LET m == Model(r)
  IN IF m.drops > 0 \/ (Failed(m) /\ m.err[1].k \in {"WrongEndTag", "WrongCaseSensitive"}) \/ r.o.x THEN Full(m, r) ELSE Skip
C12(r) ==
  LET m == Model(r)
  IN IF m.lts > 0 \/ (Failed(m) /\ m.err[1].k = "WrongTag") \/ r.o.l THEN Full(m, r) ELSE Skip
C14(r) ==
  LET m == Model(r)
  IN IF HasForeign(m.nodes) \/ HasPiece(r.src, SLASH, GT) \/ HasPiece(r.src, BANG, LBR) THEN Full(m, r) ELSE Skip
C26(r) == LET m == Model(r) IN IF r.o.c \/ \E i \in 1..Len(r.src) : IsUpper(r.src[i]) THEN Full(m, r) ELSE Skip

C13(r) ==
  IF r.a.res # "ok" THEN Skip
  ELSE First(<<<<r.b.res = "ok", "rejected with more options">>,
               <<r.b.res # "ok" \/ TreeData(r.a.nodes) = TreeData(r.b.nodes), "tree">>,
               <<r.b.res # "ok" \/ r.a.plain = r.b.plain, "rendering">>>>)

-----------------------------------------------------------------------------
(* Rendering.  `out` is the rendering with the options of the property, `base` the same without them: a wrong base
   is not the fault of these options. *)
Own(ro) ==
  CASE Prop = "C15" -> [ro EXCEPT !.m = FALSE]
    [] Prop = "C16" -> [ro EXCEPT !.q = FALSE]
    [] Prop = "C19" -> [ro EXCEPT !.d = FALSE, !.n = FALSE]
    [] OTHER -> ro
BaseInner(d) == IF Prop = "C18" THEN "none" ELSE d.inner
RenderOK(nodes, r, d) ==
  LET base == RenderAt(nodes, d.at, Own(d.ro), BaseInner(d), r.ents)
      out == RenderAt(nodes, d.at, d.ro, d.inner, r.ents)
  IN \/ Prop # "C17" /\ base # d.base   \* not this property's fault
     \/ out = None
     \/ (Prop = "C18" /\ nodes[d.at].t = "Root" /\ nodes[d.at].k = 0)
     \/ out = d.out
RenderAll(r) ==
  IF r.res = "panic" THEN (IF Failed(Model(r)) THEN Skip ELSE "panic")
  ELSE LET m == Model(r)
           parsed == ~r.ed /\ ~Failed(m) /\ Prop # "C17" /\ Len(m.nodes) = Len(r.nodes)
           nodes == IF parsed THEN m.nodes ELSE r.nodes
       IN First(<<<<r.plain # <<>>, "panic">>,
                  <<\A i \in 1..Len(r.rd) : RenderOK(nodes, r, r.rd[i]), "rendering">>>>)

C15(r) ==
  LET b == RenderAll(r)
  IN IF b # "" \/ r.again = <<>> \/ r.o.e THEN b
     ELSE First(<<<<r.again[1].res = "ok", "minified document is rejected">>,
                  <<r.again[1].res # "ok" \/ r.again[1].out = r.rd[1].out, "not idempotent">>>>)
(* the elements with their attribute names and values *)
Elements(nodes) ==
  LET ns == SelectSeq(nodes, LAMBDA n : n.t \in {"Tag", "Doctype"})
  IN [i \in 1..Len(ns) |-> <<ns[i].t, ns[i].name, [j \in 1..Len(ns[i].at) |-> <<ns[i].at[j].k, ns[i].at[j].v>>]>>]
C16(r) ==
  LET b == RenderAll(r)
  IN IF b # "" \/ r.again = <<>> \/ r.o.e THEN b
     ELSE First(<<<<r.again[1].res = "ok", "output is rejected">>,
                  <<r.again[1].res # "ok" \/ Elements(r.again[1].nodes) = Elements(r.nodes), "attributes changed">>>>)

-----------------------------------------------------------------------------
C20(r) ==
  IF r.panic THEN "panic"
  ELSE LET want == Clone(r.before, r.r)
           start == [a |-> r.before, b |-> want]
           run == FoldLeft(LAMBDA acc, s : [pair |-> ApplyPair(acc.pair, s),
                                           bad |-> IF acc.bad # "" THEN acc.bad
                                                   ELSE LET p == ApplyPair(acc.pair, s)
                                                        IN First(<<<<TreeData(s.a) = TreeData(p.a), "original after an edit">>,
                                                                   <<TreeData(s.b) = TreeData(p.b), "clone after an edit">>>>)],
                           [pair |-> start, bad |-> ""], r.steps)
           n1 == r.clone[1]
           linked(i) == r.clone[i].lp /\ r.clone[i].lv /\ r.clone[i].ld /\ (r.clone[i].et = None \/ r.clone[i].et[1].ok)
       IN First(<<<<r.after = r.before, "original changed by cloning">>,
                  <<TreeData(r.clone) = TreeData(want), "clone differs">>,
                  <<TreeData(r.value) = TreeData(want), "clone as a value differs">>,
                  <<[i \in 1..Len(r.clone) |-> r.clone[i].map] = [i \in 1..Len(r.clone) |-> r.before[r.r + i - 1].map], "attribute lookup of the clone">>,
                  <<\A i \in 1..Len(r.clone) : linked(i), "links in the clone">>,
                  <<r.plain[1] = r.plain[2] /\ r.plain[3] = r.plain[4], "clone renders differently">>,
                  <<run.bad = "", run.bad>>>>)

C21(r) ==
  IF r.res # "ok" THEN (IF r.res = "panic" THEN "panic" ELSE Skip)
  ELSE LET idx == IdIndex(r.nodes)
           want(v) == LET hit == {u \in idx : u[1] = v} IN IF hit = {} THEN 0 ELSE (CHOOSE u \in hit : TRUE)[2]
       IN First(<<<<\A j \in 1..Len(r.ids) : r.ids[j][2] = want(r.ids[j][1]), "lookup">>>>)

C22(r) ==
  IF r.what # "ok" THEN First(<<<<r.a.res = "err", "no error">>>>)
  ELSE First(<<<<~r.short \/ r.norm = LineNorm(r.src), "harness normalisation">>,
               <<r.a.res = r.b.res, "result">>,
               <<r.a.err = r.b.err, "error">>,
               <<TreeData(r.a.nodes) = TreeData(r.b.nodes), "tree">>,
               <<r.a.plain = r.b.plain, "rendering">>>>)

C23(r) ==
  IF r.res # "ok" THEN Skip
  ELSE First(<<<<\A i \in 1..Len(r.isdoc) : r.isdoc[i] = IsDocument(r.nodes, i), "document detection">>>>)

(* the source range of a node; 0 0 when the model leaves it open (a start tag that is cut off, the root) *)
Ranges(n, m) ==
  [b |-> n.b, e |-> IF m.e = m.b \/ m.t = "Root" THEN 0 ELSE n.e,
   et |-> IF m.et = None \/ m.af THEN <<>> ELSE IF n.et = None THEN <<-1>> ELSE <<n.et[1].b, n.et[1].e>>]
C24(r) ==
  IF r.res # "ok" THEN (IF r.res = "panic" /\ ~Failed(Model(r)) THEN "panic" ELSE Skip)
  ELSE LET m == Model(r)
           ns == r.nodes
           same == ~Failed(m) /\ Len(m.nodes) = Len(ns) /\ \A i \in 1..Len(ns) : m.nodes[i].t = ns[i].t /\ m.nodes[i].p = ns[i].p
           sib(i) == Cardinality({j \in 2..(i - 1) : ns[j].p = ns[i].p})
       IN First(<<<<r.docok, "document of the root">>,
                  <<r.same, "same node">>,
                  <<\A i \in 1..Len(ns) : ns[i].lp, "parent link">>,
                  <<\A i \in 1..Len(ns) : ns[i].lr, "root link">>,
                  <<\A i \in 2..Len(ns) : ns[i].i = sib(i), "index">>,
                  <<\A i \in 1..Len(ns) : ns[i].et = None \/ ns[i].et[1].ok, "end tag link">>,
                  <<~same \/ \A i \in 1..Len(ns) : Ranges(ns[i], m.nodes[i]) = Ranges(m.nodes[i], m.nodes[i]), "source positions">>>>)

InRanges(rs, c) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]
C25(r) ==
  IF r.kind = "cls"
  THEN LET cs == {c \in r.lo..r.hi : ~(c >= 55296 /\ c <= 57343)}
       IN First(<<<<\A c \in cs : InRanges(r.non, c) = IsNonCharacter(c), "noncharacter">>,
                  <<\A c \in cs : InRanges(r.key, c) = IsKeyChar(c), "attribute key character">>,
                  <<\A c \in cs : InRanges(r.val, c) = IsValueChar(c), "attribute value character">>,
                  <<\A c \in cs : InRanges(r.quo, c) = IsNeedQuote(c), "character that needs quotes">>>>)
  ELSE LET yes(b) == IF b THEN "yes" ELSE "no"
       IN First(<<<<\A i \in 1..Len(r.al) : r.al[i][2] = yes(AllowInsert(r.name, r.al[i][1])), "insertion rule">>,
                  <<r.exact = yes(r.name \in RawNames) /\ r.lower = yes(IsRawName(r.name))
                    /\ r.upper = yes(r.name \in RawNames), "content tag">>>>)

-----------------------------------------------------------------------------
(* Histories of calls: HtmlBuild, HtmlWorld, HtmlLife *)
C27(r) ==
  LET x == FoldLeft(LAMBDA acc, o : Call(acc, <<o.op, o.a, o.b, o.text>>), NoElement, r.ops)
      e == Element(x)
      seen(v) == [v EXCEPT !.full = Some(@), !.bare = Some(@)]
  IN First(<<<<~r.panic, "panic">>,
             <<Len(r.attrs) = Len(x.at), "number of attributes">>,
             <<Len(r.attrs) # Len(x.at) \/ \A i \in 1..Len(x.at) : r.attrs[i].a = x.at[i], "attribute">>,
             <<r.ret, "answer of set_attr_value">>,
             <<Len(r.attrs) # Len(x.at) \/ \A i \in 1..Len(x.at) : r.attrs[i] = seen(AttrView(x.at[i])), "attribute text or id">>,
             <<r.full = Some(AttrsText(x.at, PlainRO)) /\ r.bare = Some(AttrsText(x.at, NoQuotes)), "attribute list">>,
             <<TreeData(r.nodes) = TreeData(e), "nodes">>,
             <<\A i \in 1..Len(r.rd) : r.rd[i].out = RenderAt(e, 1, r.rd[i].ro, "none", <<>>), "rendering">>>>)

C28(r) ==
  LET step(acc, o) ==
        [w |-> After(acc.w, o), i |-> acc.i + 1,
         bad |-> IF acc.bad # "" THEN acc.bad ELSE IF Answers(acc.w, o, r.w.ans[acc.i]) THEN "" ELSE "answer to call " \o ToString(acc.i) \o ", " \o o.op]
      run == FoldLeft(step, [w |-> NoWorld, i |-> 1, bad |-> ""], r.ops)
  IN First(<<<<run.bad = "", run.bad>>,
             <<\A s \in Slots : TreeShape(r.w.end[s]) = TreeShape(run.w[s].nodes), "tree at the end">>,
             <<r.same, "another thread, or the second time, has another result">>>>)

C29(r) ==
  LET d == r.w
      N == 1..Len(d.nodes)
      step(acc, s) ==
        LET st == acc.st
            here == s.op \in {"hold", "release", "cut"}
            must == IF here /\ s.n \notin N THEN "no" ELSE IF here \/ s.op = "drop" THEN Must(st, s) ELSE "open"
            st2 == IF here \/ s.op = "drop" THEN Do(st, s, s.did) ELSE st
            kept == Kept(st2)
            dead == Dead(st2)
            ctext == IF ~s.did THEN acc.ctext
                     ELSE IF s.op = "unclone" THEN None
                     ELSE IF s.op = "clone" THEN (IF s.n \in Kept(st) THEN Some(TextOf(st, s.n)) ELSE s.ctext) ELSE acc.ctext
        IN [st |-> st2, ctext |-> ctext,
            bad |-> IF acc.bad # "" THEN acc.bad
                    ELSE First(<<<<must = "open" \/ (s.did <=> must = "yes"), "a node that is kept is not found, or one that is gone is">>,
                                 <<\A i \in kept : s.alive[i], "a node that is kept is gone">>,
                                 <<\A i \in dead : ~s.alive[i], "a node that nothing keeps is still there">>,
                                 <<\A i \in kept \cup dead : s.ends[i] = (i \in kept /\ d.nodes[i].et # None), "end tag">>,
                                 <<\A i \in N : ~s.alive[i] \/ s.up[i] = <<d.nodes[i].p # 0 /\ s.alive[d.nodes[i].p], s.alive[1]>>, "links">>,
                                 <<s.doc = st2.doc, "link to the document">>,
                                 <<s.out = IF st2.doc THEN Some(TextOf(st2, 1)) ELSE None, "rendering of the document">>,
                                 <<\A i \in N : s.texts[i] = IF i \in st2.held THEN Some(TextOf(st2, i)) ELSE None, "rendering of a held node">>,
                                 <<s.cl[2] = IF s.cl[1] THEN s.cl[3] ELSE 0, "lifetime of a clone">>,
                                 <<s.ctext = ctext, "rendering of a clone">>>>)]
  IN IF d.nodes[1].t # "Root" THEN Skip
     ELSE FoldLeft(step, [st |-> NewLife(d.nodes), ctext |-> None, bad |-> ""], d.steps).bad

(* two sources, the one after the other, and the second as the content of an element: HtmlCompose *)
C30(r) ==
  LET fine(x) == x.res \in {"ok", "err"} /\ (x.res = "ok" => x.plain # None /\ x.more # None)
  IN First(<<<<fine(r.a) /\ fine(r.b) /\ fine(r.ab) /\ fine(r.w), "panic">>,
             <<Both(r.a, r.b, r.ab, Len(r.x)), "one source after another: result or tree">>,
             <<BothText(r.a, r.b, r.ab), "one source after another: rendering">>,
             <<Inside(r.b, r.w, r.y), "source as the content of an element: result or tree">>,
             <<InsideText(r.b, r.w, r.y), "source as the content of an element: rendering">>>>)

-----------------------------------------------------------------------------
Verdict(r) ==
  CASE Prop = "C01" -> C01(r) [] Prop = "C02" -> C02(r) [] Prop = "C03" -> C03(r) [] Prop = "C04" -> C04(r)
    [] Prop = "C05" -> C05(r) [] Prop = "C06" -> C06(r) [] Prop = "C07" -> C07(r) [] Prop = "C08" -> C08(r)
    [] Prop = "C09" -> C09(r) [] Prop = "C10" -> C10(r) [] Prop = "C11" -> C11(r) [] Prop = "C12" -> C12(r)
    [] Prop = "C13" -> C13(r) [] Prop = "C14" -> C14(r) [] Prop = "C15" -> C15(r) [] Prop = "C16" -> C16(r)
    [] Prop = "C17" -> RenderAll(r) [] Prop = "C18" -> RenderAll(r) [] Prop = "C19" -> RenderAll(r)
    [] Prop = "C20" -> C20(r) [] Prop = "C21" -> C21(r) [] Prop = "C22" -> C22(r) [] Prop = "C23" -> C23(r)
    [] Prop = "C24" -> C24(r) [] Prop = "C25" -> C25(r) [] Prop = "C26" -> C26(r)
    [] Prop = "C27" -> C27(r) [] Prop = "C28" -> C28(r) [] Prop = "C29" -> C29(r) [] Prop = "C30" -> C30(r)

(* one step consumes one record; a record that is not allowed is reported and the rest is still examined *)
Consume ==
  /\ l <= Len(Recs)
  /\ LET v == Verdict(Recs[l])
     IN IF v = "" THEN TRUE
        ELSE IF v = Skip THEN TLCSet(1, TLCGet(1) + 1)
        ELSE PrintT(<<"BAD", Recs[l].id, v>>)
  /\ l' = l + 1
Init == l = 1 /\ TLCSet(1, 0)
Next == Consume
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"SKIPPED", TLCGet(1)>>) /\ TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
