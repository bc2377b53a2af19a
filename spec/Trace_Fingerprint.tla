-------------------------- MODULE Trace_Fingerprint ---------------------------
(* case.runs: [files, opts, ops]; obs.runs: per run the prints told after     *)
(* each operation, for every process that executed it                         *)
EXTENDS TraceBase, Fingerprint

C21Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET n == Len(case.runs)
           abs == TLCEval([i \in 1..n |-> <<New(case.runs[i].opts)>> \o Marks(case.runs[i].files, case.runs[i].opts, case.runs[i].ops)])
           pts == TLCEval(UNION {{<<i, k>> : k \in 1..Len(abs[i])} : i \in 1..n})
           procs == 1..Len(case.obs.procs)
           seen == TLCEval({<<Cause(abs[x[1]][x[2]]), Mark(abs[x[1]][x[2]]), case.obs.procs[1][x[1]][x[2]]>> : x \in pts})
       IN Fail(\A d \in procs : \A i \in 1..n : Len(case.obs.procs[d][i]) = Len(abs[i]), "length")
          \cup Fail(\A d \in procs : case.obs.procs[d] = case.obs.procs[1], "same-in-every-process")
          \cup Fail(Cardinality({y[1] : y \in seen}) = Cardinality({<<y[1], y[3]>> : y \in seen}), "same-history-same-print")
          \cup Fail(Cardinality({y[3] : y \in seen}) = Cardinality({<<y[2], y[3]>> : y \in seen}), "other-history-other-print")
=============================================================================
