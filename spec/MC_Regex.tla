------------------------------- MODULE MC_Regex --------------------------------
(* Small expressions, texts growing character by character: backtracking      *)
(* finds a match exactly where the language has one, and the functions fit    *)
(* together.                                                                  *)
EXTENDS Regex, Json
CONSTANTS MaxLen, Deep, Emits
VARIABLES p, fl, s
vars == <<p, fl, s>>
chr(c) == [k |-> "chr", c |-> c]
any == [k |-> "any"]
st(q, n) == [k |-> "set", s |-> q, neg |-> n]
cat(q) == [k |-> "cat", a |-> q]
alt(q) == [k |-> "alt", a |-> q]
rep(a, lo, hi, z) == [k |-> "rep", a |-> a, lo |-> lo, hi |-> hi, lazy |-> z]
bol == [k |-> "bol"]
eol == [k |-> "eol"]
Atoms == {chr("a"), any, st(<<"a", "b">>, FALSE), st(<<"a">>, TRUE)}
Reps(A) == {rep(a, r[1], r[2], z) : a \in A, r \in {<<0, 9>>, <<1, 9>>, <<0, 1>>, <<2, 2>>, <<1, 2>>}, z \in BOOLEAN}
Simple == Atoms \cup Reps({chr("a"), any})
Pairs == {cat(<<x, y>>) : x \in (IF Deep THEN Simple ELSE Reps({chr("a")})), y \in (IF Deep THEN Simple ELSE Atoms) \cup {chr("b")}}
Alts == {alt(<<x, y>>) : x \in {chr("a"), cat(<<chr("a"), chr("b")>>), rep(chr("a"), 1, 9, FALSE)}, y \in {chr("b"), cat(<<chr("a"), chr("b")>>), chr("a")}}
Anchored == {cat(<<bol, x>>) : x \in Simple} \cup {cat(<<x, eol>>) : x \in Simple} \cup {cat(<<bol, rep(alt(<<chr("a"), cat(<<chr("a"), chr("b")>>)>>), 1, 9, FALSE), eol>>)}
Nested == {rep(a, 1, 9, z) : a \in Alts, z \in BOOLEAN} \cup {rep(cat(<<chr("a"), rep(chr("b"), 0, 9, FALSE)>>), 2, 9, FALSE)}
Patterns == Simple \cup Pairs \cup Alts \cup Anchored \cup Nested
Alphabet == {"a", "b", "A", "\n"}
Flags == IF ~Deep THEN {{}, {"I", "M", "S"}} ELSE {{}, {"I"}, {"M"}, {"S"}, {"I", "M", "S"}}
Init == p \in Patterns /\ fl \in Flags /\ s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c /\ UNCHANGED <<p, fl>>
Spec == Init /\ [][Next]_vars

Right == \A i \in 1..(Len(s) + 1) : SeqSet(Ends(p, s, i, fl)) = {j \in i..(Len(s) + 1) : Lang(p, s, i, j, fl)}
NeverEmpty == \A i \in 1..(Len(s) + 1) : i \notin SeqSet(Ends(p, s, i, fl))
Leftmost == LET m == Search(p, s, fl) IN IF m = None THEN \A i \in 1..(Len(s) + 1) : MatchAt(p, s, i, fl) = None
                                         ELSE \A i \in 1..m[1] : MatchAt(p, s, i, fl) = None
MatchIsSearch == Match(p, s, fl) # None => Search(p, s, fl) = Match(p, s, fl)
InOrder == NeverEmpty => LET q == All(p, s, fl) IN \A i \in 1..(Len(q) - 1) : q[i][2] <= q[i + 1][1] /\ q[i][1] < q[i][2]
Whole == NeverEmpty => \A n \in 0..2 : LET ps == Split(p, s, n, fl) IN n # 0 => Len(ps) <= n + 1
Identity == NeverEmpty => (All(p, s, fl) = <<>> <=> (Split(p, s, 0, fl) = <<s>> /\ Sub(p, "#", s, 0, fl) = s))
Emit == IF Emits THEN PrintT("CASE " \o ToJson([p |-> p, s |-> s, fl |-> fl])) ELSE TRUE
=============================================================================
