------------------------------- MODULE Chars -------------------------------
(* Characters are code points; texts are sequences of code points.           *)
(* S("...") turns a TLA+ string of printable ASCII into such a sequence.     *)
EXTENDS Naturals, Sequences, SequencesExt

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTable == [ch \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
               31 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = ch)]
S(str) == FoldLeft(LAMBDA acc, i : Append(acc, OrdTable[SubSeq(str, i, i)]), <<>>, [i \in 1..Len(str) |-> i])

TAB == 9  LF == 10  FF == 12  CR == 13  SP == 32
BANG == 33  DQ == 34  AMP == 38  SQ == 39  DASH == 45  SLASH == 47
SEMI == 59  LT == 60  EQ == 61  GT == 62  LBR == 91  RBR == 93

WsSet == {TAB, LF, FF, CR, SP}
IsWs(c) == c \in WsSet
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
(* equality of names up to ASCII letter case *)
EqIC(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lower(a[i]) = Lower(b[i])
AllWs(s) == \A i \in 1..Len(s) : IsWs(s[i])

RECURSIVE TrimLen(_, _)
TrimLen(s, n) == IF n > 0 /\ IsWs(s[n]) THEN TrimLen(s, n - 1) ELSE n
TrimEnd(s) == SubSeq(s, 1, TrimLen(s, Len(s)))

(* keep only the characters satisfying Test *)
Filter(s, Test(_)) == SelectSeq(s, Test)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
None == <<>>
Some(x) == <<x>>
=============================================================================
