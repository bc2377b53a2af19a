-------------------------------- MODULE Regex ---------------------------------
(* Regular expressions as evaluated by backtracking, and the functions built *)
(* on them, each under a limit of time. An expression is one of              *)
(*   chr [c] | any | set [s: characters, neg] | cat [a] | alt [a]             *)
(*   rep [a: one expression, lo, hi (9: any number), lazy] | bol | eol        *)
(* (the repeated expression never matches the empty text).                    *)
EXTENDS Text

Small(c) == LET u == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
                l == "abcdefghijklmnopqrstuvwxyz"
                i == Find(u, c)
            IN IF i = 0 THEN c ELSE Ch(l, i)
Same(fl, a, b) == IF "I" \in fl THEN Small(a) = Small(b) ELSE a = b
Firsts(q) == Dedup(q)

RECURSIVE Ends(_, _, _, _), EndsOfAll(_, _, _, _), Repeat(_, _, _, _, _, _), Along(_, _, _, _, _, _, _), Chain(_, _, _, _)
\* positions (1-based, next to be read) after a match of p starting at i, the preferred one first
Ends(p, s, i, fl) ==
  CASE p.k = "chr" -> IF i <= Len(s) /\ Same(fl, Ch(s, i), p.c) THEN <<i + 1>> ELSE <<>>
    [] p.k = "any" -> IF i <= Len(s) /\ (Ch(s, i) # "\n" \/ "S" \in fl) THEN <<i + 1>> ELSE <<>>
    [] p.k = "set" -> IF i <= Len(s) /\ ((\E c \in SeqSet(p.s) : Same(fl, Ch(s, i), c)) # p.neg) THEN <<i + 1>> ELSE <<>>
    [] p.k = "bol" -> IF i = 1 \/ ("M" \in fl /\ Ch(s, i - 1) = "\n") THEN <<i>> ELSE <<>>
    [] p.k = "eol" -> IF i = Len(s) + 1 \/ (i = Len(s) /\ Ch(s, i) = "\n") \/ ("M" \in fl /\ Ch(s, i) = "\n") THEN <<i>> ELSE <<>>
    [] p.k = "cat" -> Firsts(Chain(p.a, s, <<i>>, fl))
    [] p.k = "alt" -> Firsts(EndsOfAll(p.a, s, i, fl))
    [] p.k = "rep" -> Firsts(Repeat(p, p.lo, p.hi, s, i, fl))
EndsOfAll(ps, s, i, fl) == IF ps = <<>> THEN <<>> ELSE Ends(Head(ps), s, i, fl) \o EndsOfAll(Tail(ps), s, i, fl)
\* all of ps, one after the other, from each of the positions
Chain(ps, s, is, fl) == IF ps = <<>> \/ is = <<>> THEN is
                        ELSE Chain(Tail(ps), s, FlattenSeqs([k \in 1..Len(is) |-> Ends(Head(ps), s, is[k], fl)]), fl)
Repeat(p, lo, hi, s, i, fl) ==
  LET here == IF lo = 0 THEN <<i>> ELSE <<>>
      more == IF hi = 0 THEN <<>>
              ELSE Along(p, IF lo = 0 THEN 0 ELSE lo - 1, IF hi = 9 THEN 9 ELSE hi - 1, s, Ends(p.a, s, i, fl), fl, 1)
  IN IF p.lazy THEN here \o more ELSE more \o here
Along(p, lo, hi, s, is, fl, k) == IF k > Len(is) THEN <<>> ELSE Repeat(p, lo, hi, s, is[k], fl) \o Along(p, lo, hi, s, is, fl, k + 1)

---------------------------------------------------------------------------
None == <<>>
MatchAt(p, s, i, fl) == LET e == Ends(p, s, i, fl) IN IF e = <<>> THEN None ELSE <<i - 1, e[1] - 1>>
Match(p, s, fl) == MatchAt(p, s, 1, fl)
RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(p, s, i, fl) == IF i > Len(s) + 1 THEN None
                           ELSE LET m == MatchAt(p, s, i, fl) IN IF m # None THEN m ELSE SearchFrom(p, s, i + 1, fl)
Search(p, s, fl) == SearchFrom(p, s, 1, fl)
\* matches that do not overlap, from left to right (patterns that never match the empty text)
RECURSIVE AllFrom(_, _, _, _)
AllFrom(p, s, i, fl) == LET m == SearchFrom(p, s, i, fl) IN IF m = None THEN <<>> ELSE <<m>> \o AllFrom(p, s, m[2] + 1, fl)
All(p, s, fl) == AllFrom(p, s, 1, fl)
Cut(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
RECURSIVE Pieces(_, _, _)
Pieces(s, from, ms) == IF ms = <<>> THEN <<From(s, from + 1)>>
                       ELSE <<SubSeq(s, from + 1, ms[1][1])>> \o Pieces(s, ms[1][2], Tail(ms))
Split(p, s, n, fl) == Pieces(s, 0, Cut(All(p, s, fl), n))
RECURSIVE Glue(_, _)
Glue(ps, r) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o r \o Glue(Tail(ps), r)
Sub(p, r, s, n, fl) == Glue(Split(p, s, n, fl), r)

\* what a function tells when it runs out of time
Told(fn, default) == IF default # "<unset>" THEN default ELSE IF fn = "sub" THEN "''" ELSE IF fn = "split" THEN "[]" ELSE "None"

---------------------------------------------------------------------------
(* The language of an expression, without any notion of backtracking         *)
RECURSIVE Lang(_, _, _, _, _), LangSeq(_, _, _, _, _), LangRep(_, _, _, _, _, _, _)
Lang(p, s, i, j, fl) ==
  CASE p.k \in {"chr", "any", "set"} -> j = i + 1 /\ Ends(p, s, i, fl) # <<>>
    [] p.k \in {"bol", "eol"} -> j = i /\ Ends(p, s, i, fl) # <<>>
    [] p.k = "cat" -> LangSeq(p.a, s, i, j, fl)
    [] p.k = "alt" -> \E k \in 1..Len(p.a) : Lang(p.a[k], s, i, j, fl)
    [] p.k = "rep" -> LangRep(p.a, p.lo, p.hi, s, i, j, fl)
LangSeq(ps, s, i, j, fl) == IF ps = <<>> THEN i = j ELSE \E m \in i..j : Lang(Head(ps), s, i, m, fl) /\ LangSeq(Tail(ps), s, m, j, fl)
LangRep(p, lo, hi, s, i, j, fl) == \/ lo = 0 /\ i = j
                                   \/ hi > 0 /\ \E m \in (i + 1)..j : Lang(p, s, i, m, fl) /\ LangRep(p, IF lo = 0 THEN 0 ELSE lo - 1, IF hi = 9 THEN 9 ELSE hi - 1, s, m, j, fl)
=============================================================================
