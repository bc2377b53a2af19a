---------------------------- MODULE Trace_Expand -----------------------------
(* case: defs, base, spare (sequence), path, term; obs: res, twice, refs     *)
EXTENDS TraceBase, Expand

EnvOf(case) == [defs |-> case.defs, base |-> case.base, spare |-> SeqSet(case.spare), path |-> case.path]
Left(env, t) == \E i \in 1..Len(env.defs) : env.defs[i].name \notin env.spare
                  /\ (Contains(t, "${" \o env.defs[i].name \o "}") \/ Contains(t, "d.getVar('" \o env.defs[i].name \o "'") \/ Contains(t, "d.getVar(\"" \o env.defs[i].name \o "\""))
C16Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET env == EnvOf(case)
           o == case.obs
           ac == Acyclic(env, case.term)
       IN (IF ac THEN Fail(o.res = Full(env, case.term), "exact-value")
           ELSE Fail(~Left(env, o.res), "set-reference-left"))
          \cup Fail(o.twice = o.res, "idempotent")
          \cup UNION {LET v == [k |-> "ref", x |-> case.defs[i].name]
                          e == [env EXCEPT !.spare = {}]
                      IN IF Acyclic(e, <<v>>) THEN Fail(o.refs[i] = Full(e, <<v>>), "value-of-variable")
                         ELSE Fail(~Left(e, o.refs[i]), "set-reference-left") : i \in 1..Len(case.defs)}
=============================================================================
