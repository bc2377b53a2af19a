------------------------------ MODULE MC_Expand ------------------------------
(* All reference graphs over NVars variables with values of up to ValLen     *)
(* tokens: the remembering algorithm terminates, leaves no set reference,    *)
(* is idempotent, and equals plain substitution if nothing is cyclic.        *)
EXTENDS Expand, Json
CONSTANTS NVars, ValLen
VARIABLES env, term
vars == <<env, term>>
Vs == <<"A", "B", "C", "D">>
Toks == {[k |-> "lit", t |-> "x"], [k |-> "ref", x |-> "U"]} \cup {[k |-> "ref", x |-> Vs[i]] : i \in 1..NVars}
Vals == UNION {[1..n -> Toks] : n \in 0..ValLen}
R(x) == [k |-> "ref", x |-> x]
Terms == {<<R("A")>>, <<R("B"), [k |-> "lit", t |-> "-"], R("A")>>, <<R("A"), R("U"), R("A")>>}
Init == /\ \E v \in [1..NVars -> Vals] :
             env \in {[defs |-> [i \in 1..NVars |-> [name |-> Vs[i], val |-> v[i]]], base |-> <<>>, spare |-> s, path |-> "/R/l/recipes/foo_2.bb"] : s \in {{}, {"B"}}}
        /\ term \in Terms
Next == UNCHANGED vars
Out == EvalTerm(env, term)
NoSetLeft == \A i \in 1..Len(Out) : Out[i].k = "lit" \/ ~IsSet(env, Out[i].x) \/ Out[i].x \in env.spare
Idempotent == EvalTerm(env, Out) = Out
Exact == Acyclic(env, term) => RenderToks(Out) = Full(env, term)
Emit == PrintT("CASE " \o ToJson([defs |-> env.defs, spare |-> env.spare, term |-> term]))
=============================================================================
