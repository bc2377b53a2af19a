--------------------------- MODULE Trace_StashList ---------------------------
(* obs.kinds; obs.steps[i]: [ls (all lists afterwards), r, e, operand (own list *)
(* handed in, afterwards), stash]                                            *)
EXTENDS TraceBase, Text, StashList
RECURSIVE Check(_, _, _, _)
Check(case, ls, i, acc) ==
  IF i > Len(case.ops) THEN acc
  ELSE LET o == case.ops[i]
           d == TLCEval(Do(ls, o, case.obs.kinds))
           s == case.obs.steps[i]
           c == Fail(s.ls = d.ls, "lists-after-" \o o.op)
                \cup Fail(s.r = d.r, "result-of-" \o o.op)
                \cup Fail(s.e = d.e, "exception-of-" \o o.op)
                \cup Fail(o.arg.k = "ref" \/ s.operand = o.arg.v, "operand-modified-by-" \o o.op)
                \cup Fail(s.stash = Asc(1..Len(case.obs.kinds)), "stash-modified-by-" \o o.op)
       IN IF c # {} THEN acc \cup c ELSE Check(case, d.ls, i + 1, acc)
C22Verdict(case) == IF case.obs.error # "" THEN {"no-exception"}
                    ELSE Check(case, [i \in 1..case.nlists |-> Asc(1..Len(case.obs.kinds))], 1, {})
=============================================================================
