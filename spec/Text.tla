-------------------------------- MODULE Text --------------------------------
(* Operators on text. TLC treats a string as a sequence of characters for    *)
(* Len, \o and SubSeq; everything else is defined here.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
StartsWith(s, p) == At(s, 1, p)
EndsWith(s, p) == Len(p) <= Len(s) /\ At(s, Len(s) - Len(p) + 1, p)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Occurrences(s, p) == {i \in 1..Len(s) : At(s, i, p)}
\* index of the first occurrence of p in s at or behind i, 0 if there is none
FindFrom(s, p, i) == LET O == {j \in i..Len(s) : At(s, j, p)}
                     IN IF O = {} THEN 0 ELSE MinOf(O)
Find(s, p) == FindFrom(s, p, 1)
Contains(s, p) == Occurrences(s, p) # {}

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerSeq == "abcdefghijklmnopqrstuvwxyz"
UpperSeq == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Lower == Chars(LowerSeq)
Upper == Chars(UpperSeq)
Alnum == Digits \cup Lower \cup Upper
Space == {" ", "\t"}
White == {" ", "\t", "\n"}

\* number of characters satisfying membership
CountIn(s, S) == Cardinality({i \in 1..Len(s) : Ch(s, i) \in S})

\* first index at or behind i that is not in S, Len(s)+1 if there is none
Skip(s, S, i) == LET O == {j \in i..Len(s) : Ch(s, j) \notin S}
                 IN IF O = {} THEN Len(s) + 1 ELSE MinOf(O)
LStrip(s, S) == From(s, Skip(s, S, 1))
RStrip(s, S) == LET O == {j \in 1..Len(s) : Ch(s, j) \notin S}
                IN IF O = {} THEN "" ELSE Upto(s, MaxOf(O))
Strip(s, S) == RStrip(LStrip(s, S), S)

\* sequence of texts -> text
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Concat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

\* split at every occurrence of a text, like python's str.split(sep)
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) == LET i == Find(s, sep)
                   IN IF i = 0 THEN <<s>>
                      ELSE <<Upto(s, i - 1)>> \o SplitAt(From(s, i + Len(sep)), sep)

\* non-empty pieces between characters of S
RECURSIVE Words(_, _)
Words(s, S) == LET a == Skip(s, S, 1)
               IN IF a > Len(s) THEN <<>>
                  ELSE LET E == {j \in a..Len(s) : Ch(s, j) \in S}
                           b == IF E = {} THEN Len(s) ELSE MinOf(E) - 1
                       IN <<SubSeq(s, a, b)>> \o Words(From(s, b + 1), S)

\* replace every occurrence (left to right) of p by r
RECURSIVE Replace(_, _, _)
Replace(s, p, r) == LET i == Find(s, p)
                    IN IF i = 0 THEN s
                       ELSE Upto(s, i - 1) \o r \o Replace(From(s, i + Len(p)), p, r)

\* lines of a text, each with its line break
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = "" THEN <<>>
              ELSE LET i == Find(s, "\n")
                   IN IF i = 0 THEN <<s>>
                      ELSE <<Upto(s, i)>> \o LinesOf(From(s, i + 1))

Breaks(s) == CountIn(s, {"\n"})

\* line breaks as a text file is read
Normalise(s) == Replace(Replace(s, "\r\n", "\n"), "\r", "\n")

SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* elements of q satisfying a set membership
Keep(q, S) == SelectSeq(q, LAMBDA x : x \in S)
Drop(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
RECURSIVE FlattenSeqs(_)
FlattenSeqs(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlattenSeqs(Tail(q))
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE LET t == Dedup(SubSeq(q, 1, Len(q) - 1))
                 IN IF q[Len(q)] \in SeqSet(t) THEN t ELSE Append(t, q[Len(q)])
\* lexicographic order of printable ASCII texts
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(ch) == Find(Ascii, ch)
LessEq(a, b) == LET D == {i \in 1..Len(a) : i <= Len(b) /\ Ch(a, i) # Ch(b, i)}
                IN IF D = {} THEN Len(a) <= Len(b)
                   ELSE Code(Ch(a, MinOf(D))) < Code(Ch(b, MinOf(D)))
SortedText(q) == \A i \in 1..(Len(q) - 1) : LessEq(q[i], q[i + 1])
\* clause name if it does not hold
Fail(cond, name) == IF cond THEN {} ELSE {name}
=============================================================================
