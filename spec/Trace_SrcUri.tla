---------------------------- MODULE Trace_SrcUri -----------------------------
(* case: entries; obs.mirrors: the configured mirrors, obs.got: per entry    *)
(* and round (first, again in another order, in another stash) what was read *)
EXTENDS TraceBase, SrcUri

C17Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE UNION {
    LET want == Decompose(case.entries[i], case.obs.mirrors)
        g == case.obs.got[i]
    IN Fail(g[1].scheme = want.scheme, "scheme")
       \cup Fail(g[1].src = want.src, "location")
       \cup Fail(SeqSet(g[1].options) = want.options /\ Len(g[1].options) = Cardinality(want.options), "options")
       \cup Fail(\A k \in 2..Len(g) : g[k] = g[1], "repeatable")
    : i \in 1..Len(case.entries)}
=============================================================================
