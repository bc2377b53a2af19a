----------------------------- MODULE Trace_Regex -------------------------------
(* case.kind "value": expression p, text s, flags fl, replacement r, limits n  *)
(* obs: what every function of RegexRpl told. case.kind "slow": a function that *)
(* cannot end in time: obs.told, and obs.late (seconds over the limit, rounded) *)
EXTENDS TraceBase, Regex

C24Verdict(case) ==
  IF case.obs.error = "no termination" THEN {"runs-longer-than-its-limit"}
  ELSE IF case.obs.error # "" THEN {"no-exception"}
  ELSE IF case.kind = "slow"
       THEN Fail(case.obs.told = Told(case.fn, case.default), "default-of-" \o case.fn)
            \cup Fail(case.obs.late < 3, "limit-of-" \o case.fn)
  ELSE LET fl == SeqSet(case.fl)
           o == case.obs
           all == TLCEval(All(case.p, case.s, fl))
       IN Fail(o.match = Match(case.p, case.s, fl), "match")
          \cup Fail(o.search = Search(case.p, case.s, fl), "search")
          \cup (IF ~case.solid THEN {}
                ELSE Fail(o.finditer = all, "finditer")
                     \cup UNION {Fail(o.split[k] = Split(case.p, case.s, case.n[k], fl), "split")
                                 \cup Fail(o.sub[k] = Sub(case.p, case.r, case.s, case.n[k], fl), "sub") : k \in 1..Len(case.n)})
=============================================================================
