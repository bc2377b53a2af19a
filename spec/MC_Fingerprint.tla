--------------------------- MODULE MC_Fingerprint ----------------------------
(* Two stashes over one world, all interleavings of additions, queries and   *)
(* Finalize on both. The history of the first one alone decides its print.    *)
EXTENDS Fingerprint, Json
CONSTANTS Depth, Emits
VARIABLES W, s, t, hist, other
vars == <<W, s, t, hist, other>>

R  == "/R/l/recipes/r_1.bb"
A  == "/R/l/recipes/r_%.bbappend"
I  == "/R/l/recipes/i.inc"
C  == "/R/l/classes/c.bbclass"
N  == "/R/l/recipes/none.bb"
use(x) == IF x = C THEN [k |-> "inh", n |-> 1, to |-> <<C>>, kw |-> "inherit", w |-> <<"c">>]
          ELSE [k |-> "inc", n |-> 1, to |-> <<I>>, kw |-> "require", w |-> <<"recipes/i.inc">>]
txt == [k |-> "var", n |-> 1, to |-> <<>>]
RBodies == {<<txt>>, <<use(I), txt>>, <<use(C), use(I)>>}
IBodies == {<<>>, <<txt>>, <<use(C)>>}
ABodies == {<<txt>>, <<use(C), txt>>, <<use(I)>>}
Text_(b) == IF b = <<>> THEN "" ELSE ToString([i \in 1..Len(b) |-> b[i].k])
File(p, b) == [p |-> p, st |-> b, text |-> Text_(b)]
Worlds == {<<File(R, r), File(A, a), File(I, i), File(C, <<txt>>)>> : r \in RBodies, i \in IBodies, a \in ABodies}
Ops == {<<"add", R>>, <<"add", A>>, <<"add", I>>, <<"add", C>>, <<"add", N>>, <<"q">>, <<"final">>}

Init == W \in Worlds /\ s = New("o") /\ t = New("o") /\ hist = <<>> /\ other = <<>>
First == \E o \in Ops : hist' = Append(hist, o) /\ s' = AfterOp(W, s, o) /\ UNCHANGED <<t, other, W>>
Second == \E o \in Ops : other' = Append(other, o) /\ t' = AfterOp(W, t, o) /\ UNCHANGED <<s, hist, W>>
Next == \/ Len(hist) < Depth /\ First
        \/ ~Emits /\ Len(other) < Depth /\ Second
Spec == Init /\ [][Next]_vars

\* a function of the files added: everything else may be left out
OnlyAdds(h) == SelectSeq(h, LAMBDA o : o[1] = "add" /\ o[2] # N)
RECURSIVE AddsTo(_, _)
AddsTo(x, h) == IF h = <<>> THEN x ELSE AddsTo(AfterAdd(W, x, Head(h)[2]), Tail(h))
Function == Cause(s) = Cause(AddsTo(New("o"), OnlyAdds(hist)))
Twins == OnlyAdds(hist) = OnlyAdds(other) => Cause(s) = Cause(t)
\* what the recursion counts is what the stash parses
Agrees == SeqSet(AddAll(W, Empty, [i \in 1..Len(OnlyAdds(hist)) |-> OnlyAdds(hist)[i][2]]).parsed) \cap {p \in Paths(W) : TextOf(W, p) # ""}
          = {s.q[i][1] : i \in 1..Len(s.q)}
\* adding a file with items is seen
Seen == [][hist' # hist => LET o == hist'[Len(hist')]
                           IN IF o[1] = "add" /\ o[2] \in Paths(W) /\ TextOf(W, o[2]) # "" /\ ~(OnceOnly(o[2]) /\ o[2] \in s.once)
                              THEN Mark(s') # Mark(s) ELSE Mark(s') # Mark(s) => o[1] = "add"]_vars
Emit == IF Emits /\ Len(hist) = Depth THEN PrintT("CASE " \o ToJson([files |-> W, ops |-> hist])) ELSE TRUE
=============================================================================
