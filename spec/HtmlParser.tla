----------------------------- MODULE HtmlParser -----------------------------
(***************************************************************************)
(* The character driven parser of rphtml as a state machine.               *)
(*                                                                         *)
(* One step consumes one character; the handler that consumes it is s.h.   *)
(* A step function is total: it either yields the next parser state or a   *)
(* state whose `err` is set (the parser stops there).  Eof is the final    *)
(* step.  The tree is kept as a sequence of nodes in creation order, which *)
(* is document (pre-)order.                                                *)
(***************************************************************************)
EXTENDS Chars, Integers, FiniteSets

-----------------------------------------------------------------------------
(* Names with a special meaning *)
VoidNames == {S("img"), S("input"), S("meta"), S("link"), S("br"), S("hr"), S("col"), S("base"), S("param"),
              S("source"), S("area"), S("embed"), S("track"), S("wbr")}
ScriptName == S("script")   StyleName == S("style")
TitleName == S("title")     TextareaName == S("textarea")
PlainNames == {TitleName, TextareaName}
RawNames == {ScriptName, StyleName} \cup PlainNames
ForeignNames == {S("svg"), S("math")}
PreName == S("pre")  HtmlName == S("html")  IdName == S("id")
IsVoidName(n) == LowerS(n) \in VoidNames
IsRawName(n) == LowerS(n) \in RawNames

DetComment == S("--")  DetDoctype == S("DOCTYPE")  DetCData == S("[CDATA[")
LtEntity == S("&lt;")

-----------------------------------------------------------------------------
(* Options: c case_sensitive_tagname, e allow_attr_key_starts_with_equal_sign,
   s allow_self_closing, u auto_fix_unclosed_tag, x auto_fix_unexpected_endtag,
   l auto_fix_unescaped_lt *)
Opt(c, e, s, u, x, l) == [c |-> c, e |-> e, s |-> s, u |-> u, x |-> x, l |-> l]
StrictOpt == Opt(FALSE, FALSE, FALSE, FALSE, FALSE, FALSE)
AllOpts == [c : BOOLEAN, e : BOOLEAN, s : BOOLEAN, u : BOOLEAN, x : BOOLEAN, l : BOOLEAN]

(* A node: t type, b/e source range, p parent (index into nodes), i index among the siblings, k number of
   children, c content (optional), m has tag data, name, at attributes, vo/sc/af void / self closed / auto fixed,
   et end tag (optional) *)
NewNode(t, b, p, i) ==
  [t |-> t, b |-> b, e |-> b, p |-> p, i |-> i, k |-> 0, c |-> None, m |-> FALSE, name |-> <<>>, at |-> <<>>,
   vo |-> FALSE, sc |-> FALSE, af |-> FALSE, et |-> None]
EndTag(content, b, e) == [c |-> content, b |-> b, e |-> e]

NoQuote == None
Attr(k, v, q, nq) == [k |-> k, v |-> v, q |-> q, nq |-> nq]

InitState(opt) ==
  [opt |-> opt, h |-> "wait", ci |-> "AbstractRoot", tc |-> "Wait", pos |-> 0, mem |-> 0, det |-> None, buf |-> <<>>,
   mark |-> 0, chain |-> <<1>>, cur |-> 1, sp |-> None, rep |-> FALSE, chk |-> 0,
   nodes |-> <<NewNode("Root", 0, 0, 0)>>, err |-> None, drops |-> 0, lts |-> 0]

Failed(s) == s.err # None
Fail(s, kind, arg, index) == [s EXCEPT !.err = Some([k |-> kind, a |-> arg, i |-> index])]

-----------------------------------------------------------------------------
(* Helpers shared by the handlers *)
Top(s) == s.chain[Len(s.chain)]
PopChain(s) == [s EXCEPT !.chain = SubSeq(@, 1, Len(@) - 1)]
Push(s, c) == [s EXCEPT !.buf = Append(@, c)]
Enter(s, ci, h) == [s EXCEPT !.ci = ci, !.h = h]
ToWait(s) == Enter(s, "Unkown", "wait")

(* append a node to the innermost open element and make it current *)
AddNode(s, t, b) ==
  LET p == Top(s)
      n == NewNode(t, b, p, s.nodes[p].k)
  IN  [s EXCEPT !.nodes = Append([@ EXCEPT ![p].k = @ + 1], n), !.cur = Len(s.nodes) + 1]

(* a whitespace-only text that is followed by a tag, comment ... is "spaces between tags" *)
SpacesBetween(s) == IF s.chk = 0 THEN s ELSE [s EXCEPT !.nodes[s.chk].t = "Spaces", !.chk = 0]

SetEnd(s) == [s EXCEPT !.nodes[s.cur].e = s.pos + 1]

(* the characters read so far are the tag name *)
SetMeta(s) ==
  [s EXCEPT !.nodes[s.cur].name = s.buf, !.nodes[s.cur].m = TRUE, !.nodes[s.cur].vo = IsVoidName(s.buf),
            !.buf = <<>>, !.tc = "Wait"]

AddKey(s) == [s EXCEPT !.nodes[s.cur].at = Append(@, Attr(Some(<<>>), None, NoQuote, FALSE)), !.tc = "Key"]
AddQuotedValue(s, q) == [s EXCEPT !.nodes[s.cur].at = Append(@, Attr(None, Some(<<>>), Some(q), FALSE)), !.tc = "Value"]
LastAttr(s) == Len(s.nodes[s.cur].at)
SetKey(s) == [s EXCEPT !.nodes[s.cur].at[LastAttr(s)].k = Some(s.buf), !.buf = <<>>]

(* characters that can not stand in an unquoted attribute value *)
NeedQuoteSet == WsSet \cup {DQ, SQ, LT, GT, EQ, 96}
NeedsQuote(key, value, q) ==
  q # NoQuote /\ (key = None \/ value = <<>> \/ \E i \in 1..Len(value) : value[i] \in NeedQuoteSet)
SetValue(s, q) ==
  LET a == s.nodes[s.cur].at[LastAttr(s)]
  IN [s EXCEPT !.nodes[s.cur].at[LastAttr(s)] = Attr(a.k, Some(s.buf), q, NeedsQuote(a.k, s.buf, q)), !.buf = <<>>]

(* the ">" of a start tag that is not void: raw text, foreign scope, or normal content follows *)
RawCodeIn(lname) == IF lname = ScriptName THEN "HTMLScript" ELSE IF lname = StyleName THEN "HTMLStyle" ELSE "EscapeableRawText"
OpenTag(s) ==
  LET name == s.nodes[s.cur].name
      lname == LowerS(name)
  IN IF lname \in RawNames
     THEN [Enter(s, RawCodeIn(lname), "raw") EXCEPT !.det = <<LT, SLASH>> \o name]
     ELSE LET s1 == IF s.sp = None /\ lname \in ForeignNames THEN [s EXCEPT !.sp = Some(name)] ELSE s
          IN ToWait(s1)

-----------------------------------------------------------------------------
(* Handlers *)

StepText(s, c) ==
  IF c = LT
  THEN Enter([s EXCEPT !.nodes[s.cur].c = Some(s.buf), !.nodes[s.cur].e = s.pos, !.buf = <<>>,
                       !.chk = IF s.rep THEN s.cur ELSE 0, !.mem = s.pos], "UnkownTag", "unktag")
  ELSE [s EXCEPT !.rep = @ /\ IsWs(c), !.buf = Append(@, c)]

StepWait(s, c) ==
  IF c = LT
  THEN Enter([s EXCEPT !.mem = s.pos], "UnkownTag", "unktag")
  ELSE IF s.opt.x /\ s.cur # 0 /\ s.nodes[s.cur].t = "Text"
  THEN (* an unmatched end tag was dropped after this text: it goes on *)
       LET old == s.nodes[s.cur].c[1]
       IN Enter([s EXCEPT !.buf = Append(old, c), !.rep = IsWs(c) /\ AllWs(old)], "TextNode", "text")
  ELSE Enter([AddNode(s, "Text", s.pos) EXCEPT !.rep = IsWs(c), !.buf = <<c>>], "TextNode", "text")

(* "<" followed by something that can not start a tag *)
FixLt(s, c) ==
  LET add == IF c = LT THEN LtEntity ELSE Append(LtEntity, c)
      s1 == IF s.cur # 0 /\ s.nodes[s.cur].t = "Text"
            THEN [s EXCEPT !.buf = s.nodes[s.cur].c[1] \o add]
            ELSE [AddNode(s, "Text", s.mem) EXCEPT !.buf = add]
      s2 == Enter([s1 EXCEPT !.rep = FALSE, !.lts = @ + 1], "TextNode", "text")
  IN IF c = LT THEN StepText(s2, c) ELSE s2

StepUnkTag(s, c) ==
  CASE IsAlpha(c) ->
         LET s1 == AddNode(s, "Tag", s.mem)
         IN SpacesBetween(Enter([s1 EXCEPT !.chain = Append(@, s1.cur), !.buf = <<c>>, !.tc = "Wait"], "Tag", "tagname"))
    [] c = SLASH -> Enter(s, "TagEnd", "tagend")
    [] c = BANG -> Enter(s, "ExclamationBegin", "excl")
    [] OTHER -> IF s.opt.l THEN FixLt(s, c) ELSE Fail(s, "WrongTag", <<<<c>>>>, s.mem)

StepTagName(s, c) ==
  CASE c = GT -> LET s1 == SetEnd(SetMeta(s))
                 IN IF s1.nodes[s1.cur].vo THEN ToWait(PopChain(s1)) ELSE OpenTag(s1)
    [] c = SLASH -> [SetMeta(s) EXCEPT !.h = "selfclose"]
    [] IsWs(c) -> [SetMeta(s) EXCEPT !.h = "tagwait"]
    [] OTHER -> Push(s, c)

StartValue(s, c) == [Push(s, c) EXCEPT !.mark = SP, !.tc = "Value", !.h = "value"]
StartKey(s, c) == [AddKey(Push(s, c)) EXCEPT !.h = "key"]

MsgEqualKey == S("'=' is not a valid attribute name")
MsgCDataOutside == S("wrong <![CDATA tag can only used in Svg or MathML")
MsgCDataDirect == S("<![CDATA tag can in sub node")

StepTagWait(s, c) ==
  CASE c \in {DQ, SQ} ->
         IF s.tc = "WaitValue"
         THEN [s EXCEPT !.mark = c, !.tc = "Value", !.h = "value"]
         ELSE IF s.ci = "HTMLDOCTYPE"
         THEN [AddQuotedValue(s, c) EXCEPT !.mark = c, !.h = "value"]
         ELSE StartKey(s, c)
    [] c = GT ->
         LET s1 == SetEnd(s)
         IN IF s1.nodes[s1.cur].vo THEN ToWait(PopChain(s1)) ELSE OpenTag(s1)
    [] c = SLASH /\ s.tc # "WaitValue" -> [s EXCEPT !.h = "selfclose"]
    [] c = EQ ->
         CASE s.tc = "KeyEnd" -> [s EXCEPT !.tc = "WaitValue", !.h = "tagwait"]
           [] s.tc = "Wait" -> IF s.opt.e THEN StartKey(s, c)
                               ELSE Fail(s, "WrongTag", <<MsgEqualKey>>, s.pos)
           [] OTHER -> StartValue(s, c)
    [] OTHER -> IF IsWs(c) THEN s ELSE IF s.tc = "WaitValue" THEN StartValue(s, c) ELSE StartKey(s, c)

StepSelfClose(s, c) ==
  CASE c = GT ->
         LET n == s.nodes[s.cur]
         IN IF ~s.opt.s /\ s.ci # "HTMLDOCTYPE" /\ ~(n.vo \/ s.sp # None)
            THEN Fail(s, "WrongSelfClosing", <<n.name>>, s.pos)
            ELSE LET s1 == [SetEnd(s) EXCEPT !.nodes[s.cur].sc = TRUE]
                 IN ToWait(IF s.ci = "HTMLDOCTYPE" THEN s1 ELSE PopChain(s1))
    [] c = SLASH -> s
    [] OTHER -> StepTagWait(s, c)

StepKey(s, c) ==
  CASE c = EQ -> [SetKey(s) EXCEPT !.tc = "WaitValue", !.h = "tagwait"]
    [] c = GT -> StepTagWait([SetKey(s) EXCEPT !.tc = "KeyEnd"], c)
    [] c = SLASH -> [SetKey(s) EXCEPT !.tc = "Wait", !.h = "selfclose"]
    [] IsWs(c) -> [SetKey(s) EXCEPT !.tc = "KeyEnd", !.h = "tagwait"]
    [] OTHER -> Push(s, c)

StepValue(s, c) ==
  IF s.mark = SP
  THEN CASE c = GT -> StepTagWait([SetValue(s, NoQuote) EXCEPT !.tc = "ValueEnd"], c)
         [] IsWs(c) -> [SetValue(s, NoQuote) EXCEPT !.tc = "Wait", !.h = "tagwait"]
         [] OTHER -> Push(s, c)
  ELSE IF c = s.mark THEN [SetValue(s, Some(c)) EXCEPT !.tc = "Wait", !.h = "tagwait"] ELSE Push(s, c)

(* does closing `name` leave the svg/math scope? *)
CloseForeign(s, name) ==
  IF s.sp # None /\ EqIC(s.sp[1], name) /\ ~\E i \in 2..Len(s.chain) : EqIC(s.sp[1], s.nodes[s.chain[i]].name)
  THEN [s EXCEPT !.sp = None] ELSE s

StepTagEnd(s, c) ==
  IF c # GT THEN Push(s, c)
  ELSE LET name == TrimEnd(s.buf)
           top == Top(s)
           start == s.nodes[top].name
       IN IF Len(s.chain) > 1 /\ EqIC(start, name)
          THEN IF s.opt.c /\ start # name
               THEN Fail(s, "WrongCaseSensitive", <<s.buf>>, s.pos)
               ELSE LET s1 == [PopChain(s) EXCEPT !.nodes[top].et = Some(EndTag(s.buf, s.mem, s.pos + 1)), !.buf = <<>>, !.cur = 0]
                        (* the first child of node n is node n + 1 *)
                        onlyText == s.nodes[top].k = 1 /\ s.nodes[top + 1].t = "Text"
                        s2 == IF onlyText THEN [s1 EXCEPT !.chk = 0] ELSE SpacesBetween(s1)
                    IN ToWait(CloseForeign(s2, name))
          ELSE IF s.opt.x THEN ToWait([s EXCEPT !.buf = <<>>, !.drops = @ + 1])
          ELSE Fail(s, "WrongEndTag", <<s.buf>>, s.pos)

SameChar(s, a, b) == IF s.opt.c THEN a = b ELSE Lower(a) = Lower(b)
StepRaw(s, c) ==
  IF c # GT THEN Push(s, c)
  ELSE LET n == TrimLen(s.buf, Len(s.buf))
           d == Len(s.det)
       IN IF n >= d /\ \A i \in 1..d : SameChar(s, s.det[i], s.buf[n - d + i])
          THEN LET content == SubSeq(s.buf, 1, n - d)
                   endName == SubSeq(s.buf, n - d + 3, Len(s.buf))
                   et == EndTag(endName, s.pos - (Len(s.buf) - (n - d)), s.pos + 1)
               IN ToWait([PopChain(s) EXCEPT !.nodes[s.cur].c = Some(content), !.nodes[s.cur].et = Some(et),
                                             !.buf = <<>>, !.det = None])
          ELSE Push(s, c)

StepComment(s, c) ==
  LET n == Len(s.buf)
  IN IF c = GT /\ n >= 2 /\ s.buf[n] = s.mark /\ s.buf[n - 1] = s.mark
     THEN ToWait([SetEnd(s) EXCEPT !.nodes[s.cur].c = Some(SubSeq(s.buf, 1, n - 2)), !.buf = <<>>])
     ELSE Push(s, c)

StepExcl(s, c) ==
  IF s.det = None
  THEN CASE c = DASH -> [Push(s, c) EXCEPT !.det = DetComment]
         [] c \in {68, 100} -> [Push(s, c) EXCEPT !.det = DetDoctype]
         [] c = LBR -> IF s.sp = None
                       THEN Fail(s, "CommonError", <<MsgCDataOutside>>, s.pos)
                       ELSE IF s.sp[1] = s.nodes[Top(s)].name
                       THEN Fail(s, "CommonError", <<MsgCDataDirect>>, s.pos)
                       ELSE [Push(s, c) EXCEPT !.det = DetCData]
         [] OTHER -> Fail(s, "WrongTag", <<s.buf>>, s.mem)
  ELSE LET n == Len(s.buf)
       IN IF s.det[n + 1] # (IF s.det = DetDoctype THEN Upper(c) ELSE c) THEN Fail(s, "UnrecognizedTag", <<s.buf, s.det>>, s.mem)
          ELSE IF n + 1 < Len(s.det) THEN Push(s, c)
          ELSE IF s.det = DetDoctype
          THEN SpacesBetween(Enter([AddNode(Push(s, c), "Doctype", s.mem) EXCEPT !.det = None], "HTMLDOCTYPE", "doctype"))
          ELSE LET cm == s.det = DetComment
               IN SpacesBetween(Enter([AddNode(s, IF cm THEN "Comment" ELSE "CData", s.mem) EXCEPT
                                          !.det = None, !.buf = <<>>, !.mark = IF cm THEN DASH ELSE RBR],
                                      IF cm THEN "Comment" ELSE "XMLCDATA", "comment"))

StepDoctype(s, c) ==
  IF IsWs(c) THEN [SetMeta(s) EXCEPT !.h = "tagwait"] ELSE Fail(s, "WrongHtmlDoctype", <<<<c>>>>, s.pos)

-----------------------------------------------------------------------------
(* One character *)
Handlers == {"wait", "text", "unktag", "tagname", "selfclose", "tagwait", "key", "value", "tagend", "raw", "comment",
             "excl", "doctype"}
Handle(s, c) ==
  CASE s.h = "wait" -> StepWait(s, c)
    [] s.h = "text" -> StepText(s, c)
    [] s.h = "unktag" -> StepUnkTag(s, c)
    [] s.h = "tagname" -> StepTagName(s, c)
    [] s.h = "selfclose" -> StepSelfClose(s, c)
    [] s.h = "tagwait" -> StepTagWait(s, c)
    [] s.h = "key" -> StepKey(s, c)
    [] s.h = "value" -> StepValue(s, c)
    [] s.h = "tagend" -> StepTagEnd(s, c)
    [] s.h = "raw" -> StepRaw(s, c)
    [] s.h = "comment" -> StepComment(s, c)
    [] s.h = "excl" -> StepExcl(s, c)
    [] s.h = "doctype" -> StepDoctype(s, c)
Step(s, c) == IF Failed(s) THEN s
              ELSE LET s1 == Handle(s, c) IN IF Failed(s1) THEN s1 ELSE [s1 EXCEPT !.pos = @ + 1]
Feed(s, text) == FoldLeft(Step, s, text)

-----------------------------------------------------------------------------
(* The end of the input *)

(* complete what has been read of a start tag that is cut off *)
FinishTag(s) ==
  IF s.ci # "Tag" THEN s
  ELSE IF ~s.nodes[s.cur].m THEN SetMeta(s)
  ELSE CASE s.tc = "Key" -> SetKey(s)
         [] s.tc = "Value" -> SetValue(s, IF s.mark = SP THEN NoQuote ELSE Some(s.mark))
         [] OTHER -> s

CloseAll(s) ==
  LET open == {s.chain[i] : i \in 2..Len(s.chain)}
      fix(n) == [n EXCEPT !.af = TRUE, !.et = IF n.vo THEN None ELSE Some(EndTag(n.name, s.pos, s.pos))]
      top == Top(s)
      onlyText == s.nodes[top].k = 1 /\ s.nodes[top + 1].t = "Text"   \* not between tags
  IN [s EXCEPT !.nodes = [i \in 1..Len(@) |-> IF i \in open THEN fix(@[i]) ELSE @[i]], !.chain = <<1>>,
               !.chk = IF onlyText THEN 0 ELSE @, !.rep = IF onlyText THEN FALSE ELSE @]

TxUnkownTag == S("UnkownTag")  TxTagEnd == S("TagEnd")  TxExcl == S("ExclamationBegin")  TxComment == S("Comment")
TxDoctype == S("HTMLDOCTYPE")  TxPlain == S("EscapeableRawText")  TxScript == S("HTMLScript")  TxStyle == S("HTMLStyle")
TxCData == S("XMLCDATA")
CodeInText(ci) ==
  CASE ci = "UnkownTag" -> TxUnkownTag [] ci = "TagEnd" -> TxTagEnd [] ci = "ExclamationBegin" -> TxExcl
    [] ci = "Comment" -> TxComment [] ci = "HTMLDOCTYPE" -> TxDoctype [] ci = "EscapeableRawText" -> TxPlain
    [] ci = "HTMLScript" -> TxScript [] ci = "HTMLStyle" -> TxStyle [] ci = "XMLCDATA" -> TxCData
EofLast(s) ==
  CASE s.ci = "TextNode" ->
         [s EXCEPT !.nodes[s.cur].c = Some(s.buf), !.nodes[s.cur].e = s.pos,
                   !.nodes[s.cur].t = IF s.rep THEN "Spaces" ELSE "Text"]
    [] s.ci \in {"Unkown", "AbstractRoot"} -> SpacesBetween(s)
    [] s.ci = "Tag" -> s
    [] s.ci \in {"HTMLScript", "HTMLStyle", "EscapeableRawText"} ->
         Fail(s, "UnclosedTag", <<CodeInText(s.ci)>>, s.nodes[s.cur].b)
    [] OTHER -> Fail(s, "UnclosedTag", <<CodeInText(s.ci)>>, s.mem)

Eof(s) ==
  IF Failed(s) THEN s
  ELSE LET s1 == FinishTag(s)
           top == Top(s1)
       IN IF Len(s1.chain) > 1 /\ ~s1.opt.u
          THEN Fail(s1, "UnclosedTag", <<s1.nodes[top].name>>, s1.nodes[top].b)
          ELSE LET s2 == EofLast(IF Len(s1.chain) > 1 THEN CloseAll(s1) ELSE s1)
               IN IF Failed(s2) THEN s2 ELSE [s2 EXCEPT !.nodes[1].e = s2.pos]

Parse(text, opt) == Eof(Feed(InitState(opt), text))
Accepts(text, opt) == ~Failed(Parse(text, opt))

-----------------------------------------------------------------------------
(* Error positions: index to line and column *)
LineStep(a, c) ==   \* CR, LF and CRLF each end one line
  IF c = CR \/ (c = LF /\ a.prev # CR) THEN [line |-> a.line + 1, col |-> 0, prev |-> c]
  ELSE IF c = LF THEN [a EXCEPT !.prev = c]
  ELSE [line |-> a.line, col |-> a.col + 1, prev |-> c]
LineCol(text, index) == FoldLeft(LineStep, [line |-> 1, col |-> 0, prev |-> 0], SubSeq(text, 1, index + 1))
Line(text, index) == LineCol(text, index).line
Col(text, index) == LineCol(text, index).col

TxWrongTag == S("wrong tag <")
TxWrongEndTag == S("wrong end tag </")
TxTheTag == S("the tag '")
TxNotClosed == S("' is not closed")
TxUnexpected == S("unexpected character '")
TxInDoctype == S("' in html doctype decalaration")
TxUnrecognized == S("unrecognized tag '")
TxDoYouMean == S("', do you mean '")
TxQuote == S("'")
TxCase1 == S("because the config of 'case-sensitive', the tag '")
TxCase2 == S("' is not matched correctly.")
TxSelf1 == S("wrong self-closing tag '")
TxSelf2 == S("',make sure you set the config allow self-closing.")
TxLine == S("[line:")
TxCol == S(",col:")
TxIndex == S(",index:")
TxClose == S("]")
(* Displayed text of an error kind *)
KindText(k, a) ==
  CASE k = "WrongTag" -> TxWrongTag \o a[1]
    [] k = "WrongEndTag" -> TxWrongEndTag \o a[1]
    [] k = "UnclosedTag" -> TxTheTag \o a[1] \o TxNotClosed
    [] k = "WrongHtmlDoctype" -> TxUnexpected \o a[1] \o TxInDoctype
    [] k = "UnrecognizedTag" -> TxUnrecognized \o a[1] \o TxDoYouMean \o a[2] \o TxQuote
    [] k = "WrongCaseSensitive" ->
         TxCase1 \o a[1] \o TxCase2
    [] k = "WrongSelfClosing" ->
         TxSelf1 \o a[1] \o TxSelf2
    [] k = "CommonError" -> a[1]
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
RegionText(line, col, index) == TxLine \o Decimal(line) \o TxCol \o Decimal(col) \o TxIndex \o Decimal(index) \o TxClose
ErrorText(text, err) == RegionText(Line(text, err.i), Col(text, err.i), err.i) \o KindText(err.k, err.a)
=============================================================================
