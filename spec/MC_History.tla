----------------------------- MODULE MC_History -----------------------------
(* Two stashes with memorised answers, used in any order. What a query       *)
(* answers is a function of the modifications of its own stash (here: the    *)
(* sequence itself). Memorised answers are dropped by every modification.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Mods, Queries, Stashes
VARIABLES hist, mods, memo, answer
vars == <<hist, mods, memo, answer>>

Truth(m, q) == <<q, m>>
Init == hist = <<>> /\ mods = [s \in Stashes |-> <<>>] /\ memo = [s \in Stashes |-> {}] /\ answer = <<>>
Modify(s, o) == /\ mods' = [mods EXCEPT ![s] = Append(@, o)]
                /\ memo' = [t \in Stashes |-> {}]
                /\ answer' = <<>>
                /\ hist' = Append(hist, <<s, o>>)
Query(s, q) == LET known == {e \in memo[s] : e[1] = q}
                   a == IF known = {} THEN Truth(mods[s], q) ELSE (CHOOSE e \in known : TRUE)[2]
               IN /\ answer' = <<s, q, a>>
                  /\ memo' = [memo EXCEPT ![s] = @ \cup {<<q, a>>}]
                  /\ hist' = Append(hist, <<s, q>>)
                  /\ UNCHANGED mods
Next == Len(hist) < MaxOps /\ \E s \in Stashes : (\E o \in Mods : Modify(s, o)) \/ (\E q \in Queries : Query(s, q))
Spec == Init /\ [][Next]_vars
Fresh == answer = <<>> \/ answer[3] = Truth(mods[answer[1]], answer[2])
MemoSound == \A s \in Stashes : \A e \in memo[s] : e[2] = Truth(mods[s], e[1])
Frame == [][\A s \in Stashes : hist'[Len(hist')][1] # s => mods'[s] = mods[s]]_vars
\* histories worth replaying: something is asked before and after a modification
Worth == Len(hist) = MaxOps /\ hist[MaxOps][2] \in Queries /\ \E i \in 1..(MaxOps - 1) : hist[i][2] \in Mods
Emit == IF Worth THEN PrintT("CASE " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
