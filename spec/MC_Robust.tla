------------------------------ MODULE MC_Robust ------------------------------
(* All graphs of a few files, whatever points to whatever: parsing ends, is  *)
(* never in the same file twice at a time, links everything it meets, and    *)
(* agrees with the recursive definition used elsewhere.                      *)
EXTENDS Robust, Json
CONSTANTS Long, Short, Emits
VARIABLES W, m, adds, emitted
vars == <<W, m, adds, emitted>>

R  == "/R/l/recipes/r_1.bb"
A  == "/R/l/recipes/r_%.bbappend"
I  == "/R/l/recipes/i.inc"
J  == "/R/l/recipes/j.inc"
C  == "/R/l/classes/c.bbclass"
Files == {R, A, I, J, C}
use(t) == IF t = C THEN [k |-> "inh", n |-> 1, to |-> <<C>>, kw |-> "inherit"] ELSE [k |-> "inc", n |-> 1, to |-> <<t>>, kw |-> "require"]
txt == [k |-> "var", n |-> 1, to |-> <<>>]
SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
Stmts == {use(t) : t \in {I, J, C, ""}}
Bodies(n) == {Append(b, txt) : b \in SeqsUpTo(Stmts, n)}
Worlds == {<<[p |-> R, st |-> r], [p |-> A, st |-> a], [p |-> I, st |-> i], [p |-> J, st |-> j], [p |-> C, st |-> c]>> :
             r \in Bodies(Short), a \in {<<txt>>, <<use(I), txt>>}, i \in Bodies(Long), j \in Bodies(Short), c \in Bodies(Short)}

Init == W \in Worlds /\ m = Start /\ adds = <<>> /\ emitted = FALSE
Idle == m.stack = NoFrames
Add == Idle /\ \E p \in {R, A, "/R/l/recipes/none.bb"} : p \notin SeqSet(adds) /\ adds' = Append(adds, p) /\ m' = Begin(W, m, p) /\ UNCHANGED <<W, emitted>>
Parse == ~Idle /\ m' = SmallStep(W, m) /\ UNCHANGED <<W, adds, emitted>>
Next == Add \/ Parse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == Idle /\ Len(adds) = 3
\* parsing ends
Ends == <>[]Over
NeverTwice == Cardinality(Stack(m)) = Len(m.stack)
Shallow == Len(m.stack) <= Cardinality(Files)
\* everything completed is linked to all it names
AllLinked == \A p \in SeqSet(m.parsed) : \A t \in Targets(W, p) : <<p, t>> \in m.edges
\* nothing appears that the files do not ask for
OnlyLinked == \A e \in m.edges : e[2] \in Targets(W, e[1]) \/ Applies(e[2], e[1])
Same == Idle => LET st == AddAll(W, Empty, SelectSeq(adds, LAMBDA p : p \in Paths(W)))
                IN st.edges = m.edges /\ st.parsed = m.parsed
Emit == IF Emits /\ Over /\ adds[1] = R THEN PrintT("CASE " \o ToJson([files |-> W, adds |-> adds])) ELSE TRUE
=============================================================================
