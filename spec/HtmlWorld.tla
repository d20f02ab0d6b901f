----------------------------- MODULE HtmlWorld ------------------------------
(* Several documents at once.  A world has slots; each is empty or holds a    *)
(* tree.  Whatever was parsed, rendered, cloned, edited or dropped before,    *)
(* in this slot or another, a call answers from its arguments and the tree    *)
(* it is given, and only an edit changes a tree.                              *)
(* A call is [op, a, b, text]: a is the slot.                                 *)
EXTENDS HtmlEdit

Slots == 1..3
Empty == [has |-> FALSE, fresh |-> FALSE, nodes |-> <<>>]
Tree(nodes, fresh) == [has |-> TRUE, fresh |-> fresh, nodes |-> nodes]
NoWorld == [s \in Slots |-> Empty]

Bit(n, i) == (n \div (2 ^ i)) % 2 = 1
OptOf(b) == [c |-> Bit(b, 0), e |-> Bit(b, 1), s |-> Bit(b, 2), u |-> Bit(b, 3), x |-> Bit(b, 4), l |-> Bit(b, 5)]
ROOf(b) == [m |-> Bit(b, 0), l |-> Bit(b, 1), e |-> Bit(b, 2), q |-> Bit(b, 3), c |-> Bit(b, 4), v |-> Bit(b, 5),
            d |-> Bit(b, 6), n |-> Bit(b, 7)]
InnerOf(k) == CASE k = 1 -> "html" [] k = 2 -> "text" [] OTHER -> "none"

(* the edits are those of HtmlEdit, on node b \div 100, child or attribute b % 100 *)
EditNames == {"content", "append", "poke", "rename", "attr", "delattr", "endtag", "noend", "selfclose", "void", "type", "remove"} \cup InsertOps
EditOf(o) == [side |-> 0, op |-> o.op, n |-> o.b \div 100, at |-> o.b % 100, text |-> o.text,
              attr |-> [k |-> Some(S("k")), v |-> Some(o.text), q |-> Some(DQ), nq |-> FALSE]]

(* the world after a call *)
After(w, o) ==
  LET s == w[o.a]
  IN CASE o.op = "parse" -> LET f == Parse(o.text, OptOf(o.b)) IN [w EXCEPT ![o.a] = IF Failed(f) THEN Empty ELSE Tree(f.nodes, TRUE)]
       [] o.op = "drop" -> [w EXCEPT ![o.a] = Empty]
       [] o.op = "clone" -> IF s.has /\ o.b \in 1..Len(s.nodes) THEN [w EXCEPT ![o.text[1]] = Tree(Clone(s.nodes, o.b), FALSE)] ELSE w
       \* a copy of node text[2] of slot text[1] becomes child b % 100 of node b \div 100
       [] o.op = "graft" ->
            LET from == w[o.text[1]]
                n == o.b \div 100
                m == o.text[2]
            IN IF s.has /\ from.has /\ n \in 1..Len(s.nodes) /\ m \in 1..Len(from.nodes) /\ s.nodes[n].t \in {"Tag", "Root"}
                  /\ from.nodes[m].t # "Root" /\ o.b % 100 <= s.nodes[n].k
               THEN [w EXCEPT ![o.a] = Tree(InsertTree(s.nodes, n, o.b % 100, Clone(from.nodes, m)), FALSE)] ELSE w
       [] o.op \in EditNames -> IF s.has THEN [w EXCEPT ![o.a] = Tree(Apply(s.nodes, EditOf(o)), FALSE)] ELSE w
       [] OTHER -> w

(* is `v` what the call answers in world w?  v has the fields of every answer; `none` when the slot is empty *)
IdFind(nodes, id) == LET hit == {u \in IdIndex(nodes) : u[1] = id} IN IF hit = {} THEN 0 ELSE (CHOOSE u \in hit : TRUE)[2]
Answers(w, o, v) ==
  LET s == w[o.a]
  IN CASE o.op = "parse" ->
            LET f == Parse(o.text, OptOf(o.b))
            IN IF Failed(f) THEN v.res = "err" /\ v.err[1].k = f.err[1].k /\ v.err[1].a = f.err[1].a /\ v.err[1].i = f.err[1].i
               ELSE v.res = "ok" /\ v.out = Some(Render(f.nodes, PlainRO))
       [] o.op = "render" ->
            IF ~s.has \/ o.text[1] > Len(s.nodes) THEN v.res = "none"
            ELSE LET want == RenderAt(s.nodes, o.text[1], ROOf(o.text[2]), InnerOf(o.text[3]), v.ents)
                 IN want = None \/ (s.nodes[o.text[1]].t = "Root" /\ s.nodes[o.text[1]].k = 0) \/ v.out = want
       [] o.op = "find" -> IF ~s.has THEN v.res = "none" ELSE ~s.fresh \/ v.num = IdFind(s.nodes, o.text)
       [] o.op = "isdoc" ->
            IF ~s.has \/ o.b \notin 1..Len(s.nodes) THEN v.res = "none" ELSE v.flags = IsDocument(s.nodes, o.b)
       [] OTHER -> v.res # "panic"
=============================================================================
