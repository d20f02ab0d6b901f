----------------------------- MODULE HtmlBuild ------------------------------
(* Building attributes and nodes by hand, through the public calls.           *)
(* A call is <<name, a, b, text>>; a quote is its code point, 0 for none.     *)
EXTENDS HtmlEdit

Quote(a) == IF a = 0 THEN None ELSE Some(a)
NoElement == [at |-> <<>>, name |-> <<>>, vo |-> FALSE, sc |-> FALSE, kids |-> <<>>]

(* a text node is "spaces" when it has nothing but whitespace; a position of 0 means none was given, p means p - 1 *)
TextNode(text, p, i) ==
  LET at == IF p = 0 THEN 0 ELSE p - 1
  IN [NewNode(IF AllWs(text) THEN "Spaces" ELSE "Text", at, 1, i) EXCEPT !.c = Some(text)]

CanCall(x, o) == o[1] \in {"setKey", "setVal"} => x.at # <<>>
Call(x, o) ==
  LET last == Len(x.at)
  IN IF ~CanCall(x, o) THEN x
     ELSE CASE o[1] = "addKey" -> [x EXCEPT !.at = Append(@, Attr(Some(<<>>), None, NoQuote, FALSE))]
            [] o[1] = "addVal" -> [x EXCEPT !.at = Append(@, Attr(None, Some(<<>>), Quote(o[2]), FALSE))]
            [] o[1] = "setKey" -> [x EXCEPT !.at[last].k = Some(o[4])]
            [] o[1] = "setVal" ->
                 LET a == x.at[last]
                 IN [x EXCEPT !.at[last] = Attr(a.k, Some(o[4]), Quote(o[2]), NeedsQuote(a.k, o[4], Quote(o[2])))]
            [] o[1] = "text" -> [x EXCEPT !.kids = Append(@, TextNode(o[4], o[2], Len(@)))]
            [] o[1] = "name" -> [x EXCEPT !.name = o[4]]
            [] o[1] = "void" -> [x EXCEPT !.vo = ~@]
            [] o[1] = "self" -> [x EXCEPT !.sc = ~@]

(* the element and its texts as a tree *)
Element(x) ==
  <<[NewNode("Tag", 0, 0, 0) EXCEPT !.m = TRUE, !.name = x.name, !.at = x.at, !.vo = x.vo, !.sc = x.sc, !.k = Len(x.kids),
                                    !.et = IF x.vo \/ x.sc THEN None ELSE Some(EndTag(x.name, 0, 0))]>> \o x.kids

(* an attribute is an id: its value *)
IdOf(a) == IF a.k # None /\ a.v # None /\ EqIC(a.k[1], IdName) THEN a.v ELSE None
NoQuotes == [PlainRO EXCEPT !.q = TRUE]
AttrView(a) == [a |-> a, full |-> AttrText(a, PlainRO), bare |-> AttrText(a, NoQuotes), id |-> IdOf(a)]
=============================================================================
