----------------------------- MODULE HtmlRender -----------------------------
(* Rendering of a tree (sequence of nodes in document order, see HtmlParser). *)
EXTENDS HtmlParser

(* Render options: m minify_spaces, l lowercase_tagname, e remove_endtag_space, q remove_attr_quote,
   c remove_comment, v always_close_void, d decode_entity, n encode_content.
   `inner` is "none" | "html" | "text". *)
ROpt(m, l, e, q, c, v, d, n) == [m |-> m, l |-> l, e |-> e, q |-> q, c |-> c, v |-> v, d |-> d, n |-> n]
PlainRO == ROpt(FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE)
MinRO == [PlainRO EXCEPT !.m = TRUE]

Kids(nodes) ==   \* the children of every node
  FoldLeft(LAMBDA acc, n : [at |-> acc.at + 1, k |-> IF n.p = 0 THEN acc.k ELSE [acc.k EXCEPT ![n.p] = Append(@, acc.at)]],
           [at |-> 1, k |-> [i \in 1..Len(nodes) |-> <<>>]], nodes).k

(* every run of whitespace becomes its first character *)
Collapse(text) ==
  FoldLeft(LAMBDA acc, c : IF IsWs(c) /\ acc # <<>> /\ IsWs(acc[Len(acc)]) THEN acc ELSE Append(acc, c), <<>>, text)

(* Character references: ents is the environment (the htmlentity crate): a sequence of [n |-> name, r |-> Some(char)
   or None]; a name that is not listed does not decode. *)
RefOf(ents, name) ==
  LET hits == SelectSeq(ents, LAMBDA e : e.n = name) IN IF hits = <<>> THEN None ELSE hits[1].r
DecodeText(ents, text) ==
  LET step(a, c) ==
        IF ~a.ent
        THEN IF c = AMP THEN [a EXCEPT !.ent = TRUE, !.pend = <<>>] ELSE [a EXCEPT !.out = Append(@, c)]
        ELSE IF c = SEMI
        THEN LET r == RefOf(ents, a.pend)
             IN IF r = None THEN [ent |-> FALSE, pend |-> <<>>, out |-> Append(Append(a.out, AMP) \o a.pend, SEMI)]
                ELSE [ent |-> FALSE, pend |-> <<>>, out |-> Append(a.out, r[1])]
        ELSE IF c = AMP THEN [ent |-> TRUE, pend |-> <<>>, out |-> Append(a.out, AMP) \o a.pend]
        ELSE [a EXCEPT !.pend = Append(@, c)]
      r == FoldLeft(step, [ent |-> FALSE, pend |-> <<>>, out |-> <<>>], text)
  IN IF r.ent THEN Append(r.out, AMP) \o r.pend ELSE r.out

EncLt == S("&lt;")  EncGt == S("&gt;")  EncAmp == S("&amp;")
EncodeChar(c) == CASE c = LT -> EncLt [] c = GT -> EncGt [] c = AMP -> EncAmp [] OTHER -> <<c>>
EncodeText(text) == FoldLeft(LAMBDA acc, c : acc \o EncodeChar(c), <<>>, text)

AttrText(a, ro) ==
  LET key == IF a.k = None THEN <<>> ELSE a.k[1]
      eq == IF a.k = None THEN <<>> ELSE <<EQ>>
  IN IF a.v = None THEN key
     ELSE IF a.q # None /\ (a.nq \/ ~ro.q) THEN key \o eq \o a.q \o a.v[1] \o a.q
     ELSE key \o eq \o a.v[1]
AttrsText(at, ro) == FoldLeft(LAMBDA acc, a : Append(acc, SP) \o AttrText(a, ro), <<>>, at)

NameText(name, ro) == IF ro.l THEN LowerS(name) ELSE name

StartTagText(n, ro) ==
  <<LT>> \o NameText(n.name, ro) \o AttrsText(n.at, ro)
  \o (IF n.sc \/ (n.vo /\ ro.v) THEN <<SP, SLASH>> ELSE <<>>) \o <<GT>>
EndTagText(et, ro) ==
  <<LT, SLASH>> \o NameText(IF ro.e THEN TrimEnd(et.c) ELSE et.c, ro) \o <<GT>>
RawContentText(n, ro) ==
  IF ro.n /\ LowerS(n.name) \in PlainNames THEN EncodeText(n.c[1]) ELSE n.c[1]

CommentOpen == S("<!--")  CommentClose == S("-->")  CDataOpen == S("<![CDATA[")  CDataClose == S("]]>")
IsPre(n) == n.t = "Tag" /\ LowerS(n.name) = PreName

(* own text of a node (without children and end tag); root: the node rendering was asked for *)
OwnText(n, ro, inner, root, pre, ents) ==
  CASE n.t = "Text" ->
         LET t == IF ro.m /\ ~pre THEN Collapse(n.c[1]) ELSE n.c[1]
         IN IF ro.d THEN DecodeText(ents, t) ELSE t
    [] n.t = "Spaces" -> IF ro.m /\ ~pre THEN <<>> ELSE n.c[1]
    [] n.t = "Tag" ->
         (IF (IF root THEN inner = "none" ELSE inner # "text") THEN StartTagText(n, ro) ELSE <<>>)
         \o (IF n.c = None THEN <<>> ELSE RawContentText(n, ro))
    [] n.t = "Doctype" ->
         IF inner = "text" THEN <<>>
         ELSE <<LT, BANG>> \o n.name \o (IF n.at = <<>> THEN <<SP>> ELSE AttrsText(n.at, ro)) \o <<GT>>
    [] n.t = "Comment" ->
         LET text == IF n.c = None THEN <<>> ELSE n.c[1]
         IN IF ro.c THEN <<>>
            ELSE IF inner # "text" THEN CommentOpen \o text \o CommentClose
            ELSE IF root THEN text ELSE <<>>
    [] n.t = "CData" ->
         LET text == IF n.c = None THEN <<>> ELSE n.c[1]
         IN IF inner = "text" THEN text ELSE CDataOpen \o text \o CDataClose
    [] OTHER -> <<>>

RECURSIVE RenderNode(_, _, _, _, _, _, _, _)
RenderNode(nodes, kids, i, ro, inner, root, pre, ents) ==
  LET n == nodes[i]
      pre1 == pre \/ IsPre(n)
      own == OwnText(n, ro, inner, root, pre, ents)
      sub == FoldLeft(LAMBDA acc, j : acc \o RenderNode(nodes, kids, j, ro, inner, FALSE, pre1, ents), <<>>, kids[i])
      end == IF n.et # None /\ (IF root THEN inner = "none" ELSE inner # "text") THEN EndTagText(n.et[1], ro) ELSE <<>>
  IN own \o sub \o end

(* What rendering node i gives: Some(text), or None for the documented panics. *)
RenderAt(nodes, i, ro, inner, ents) ==
  LET kids == Kids(nodes)
      n == nodes[i]
      tags == SelectSeq(kids[i], LAMBDA j : nodes[j].t = "Tag")
      go(j) == Some(RenderNode(nodes, kids, j, ro, inner, TRUE, FALSE, ents))
  IN IF inner = "none" THEN go(i)
     ELSE IF n.t = "Root"
     THEN IF n.k <= 0 THEN Some(<<>>) ELSE IF Len(tags) = 1 THEN go(tags[1]) ELSE None
     ELSE IF n.t = "Tag" \/ (inner = "text" /\ n.t \in {"Comment", "CData"}) THEN go(i) ELSE None

Render(nodes, ro) == RenderAt(nodes, 1, ro, "none", <<>>)[1]
Canon(text, opt) == Render(Parse(text, opt).nodes, PlainRO)
=============================================================================
