---------------------------- MODULE HtmlCompose -----------------------------
(* Parsing and rendering compose: what a piece of source means does not        *)
(* depend on what stands before, after or around it.                           *)
(* A result is [res, nodes, err, plain, more]: "ok" with the nodes and two     *)
(* renderings, or "err" with the error.  The operators relate results, of the  *)
(* specification (MCCompose) or of the code (Trace).                           *)
EXTENDS HtmlTree

AllButMin == [PlainRO EXCEPT !.l = TRUE, !.e = TRUE, !.q = TRUE, !.c = TRUE, !.v = TRUE, !.n = TRUE]
Result(f) == IF Failed(f) THEN [res |-> "err", nodes |-> <<>>, err |-> f.err, plain |-> None, more |-> None]
             ELSE [res |-> "ok", nodes |-> f.nodes, err |-> None, plain |-> Some(Render(f.nodes, PlainRO)), more |-> Some(Render(f.nodes, AllButMin))]

TextTypes == {"Text", "Spaces"}
Seen(n) == [t |-> n.t, p |-> n.p, i |-> n.i, c |-> n.c, name |-> n.name, at |-> [j \in 1..Len(n.at) |-> AttrShape(n.at[j])],
            sc |-> n.sc, vo |-> n.vo, b |-> n.b, e |-> IF n.t = "Root" THEN 0 ELSE n.e,
            et |-> IF n.et = None THEN None ELSE Some(<<n.et[1].c, n.et[1].b, n.et[1].e>>)]
SeenAll(nodes) == [i \in 1..Len(nodes) |-> Seen(nodes[i])]
(* d characters later in the source, its parents k nodes later in the tree *)
Shift(n, d, k, root) ==
  [n EXCEPT !.b = @ + d, !.e = @ + d, !.p = IF @ = 1 THEN root ELSE @ + k,
            !.et = IF @ = None THEN None ELSE Some([@[1] EXCEPT !.b = @ + d, !.e = @ + d])]

(* the tree of a source that is followed, after d characters, by another: the texts at the boundary are one *)
Joined(a, b, d) ==
  LET last == IF a[1].k = 0 THEN 0 ELSE CHOOSE i \in 2..Len(a) : a[i].p = 1 /\ a[i].i = a[1].k - 1
      one == last # 0 /\ Len(b) > 1 /\ a[last].t \in TextTypes /\ b[2].t \in TextTypes
      less == IF one THEN 1 ELSE 0
      text == [a[last] EXCEPT !.c = Some(@[1] \o b[2].c[1]), !.e = b[2].e + d, !.t = IF a[last].t = "Spaces" /\ b[2].t = "Spaces" THEN "Spaces" ELSE "Text"]
      left == IF one THEN [a EXCEPT ![last] = text] ELSE a
      k == Len(a) - 1 - less
      right == [j \in 1..(Len(b) - 1 - less) |->
                  LET n == Shift(b[j + 1 + less], d, k, 1)
                  IN IF n.p = 1 THEN [n EXCEPT !.i = @ + a[1].k - less] ELSE n]
  IN left \o right

(* a, b, ab: the results for two sources and for the one after the other; d: the length of the first *)
Both(a, b, ab, d) ==
  CASE a.res = "err" -> a.err[1].k # "UnclosedTag" => ab.res = "err" /\ ab.err = a.err      \* the first error is final
    [] b.res = "err" -> ab.res = "err" /\ ab.err[1].k = b.err[1].k /\ ab.err[1].a = b.err[1].a /\ ab.err[1].i = b.err[1].i + d
    [] OTHER -> ab.res = "ok" /\ SeenAll(ab.nodes) = SeenAll(Joined(a.nodes, b.nodes, d))
BothText(a, b, ab) == a.res = "ok" /\ b.res = "ok" /\ ab.res = "ok" => ab.plain = Some(a.plain[1] \o b.plain[1]) /\ ab.more = Some(a.more[1] \o b.more[1])

(* a source as the content of an element q *)
QName == S("q")
Wrap(text) == S("<q>") \o text \o S("</q>")
ClosesQ(text) == \E i \in 1..(Len(text) - 2) : text[i] = LT /\ text[i + 1] = SLASH /\ Lower(text[i + 2]) = QName[1]
Wrapped(a, d) ==
  LET only == a[1].k = 1 /\ a[2].t \in TextTypes
      q == [NewNode("Tag", 0, 1, 0) EXCEPT !.e = 3, !.k = a[1].k, !.m = TRUE, !.name = QName, !.et = Some(EndTag(QName, d + 3, d + 7))]
      kid(j) == LET n == Shift(a[j + 1], 3, 1, 2) IN IF only /\ j = 1 THEN [n EXCEPT !.t = "Text"] ELSE n
  IN <<[a[1] EXCEPT !.k = 1], q>> \o [j \in 1..(Len(a) - 1) |-> kid(j)]
Inside(a, w, text) == a.res = "ok" /\ ~ClosesQ(text) => w.res = "ok" /\ SeenAll(w.nodes) = SeenAll(Wrapped(a.nodes, Len(text)))
InsideText(a, w, text) ==
  a.res = "ok" /\ w.res = "ok" /\ ~ClosesQ(text) => w.plain = Some(Wrap(a.plain[1])) /\ w.more = Some(Wrap(a.more[1]))
=============================================================================
