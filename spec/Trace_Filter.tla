----------------------------- MODULE Trace_Filter -----------------------------
(* case.ops[k]: [kind, start (ids, input list), filters]; obs.items, obs.links; *)
(* obs.res[k]: [r (ids), input (ids of the input list afterwards)]; obs.left: ids of the stash at the end *)
EXTENDS TraceBase, Text, Filter

IdSeq(n) == [i \in 1..n |-> i]
\* the value a filter is given; tagged by the driver
Flt(f, vals) == [file |-> f.file, nolink |-> f.nolink, cls |-> f.cls, attr |-> f.attr, val |-> vals]
OneAtATime(F) == <<[F EXCEPT !.cls = <<>>, !.attr = <<>>, !.val = <<>>],
                   [F EXCEPT !.file = "", !.attr = <<>>, !.val = <<>>],
                   [F EXCEPT !.file = "", !.cls = <<>>]>>
C12Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET o == case.obs
           it == o.items
           n == Len(it)
       IN UNION {
            LET p == case.ops[k]
                r == o.res[k]
                q == IF p.kind = "get" THEN IdSeq(n) ELSE r.start
                fs == [i \in 1..Len(p.filters) |-> Flt(p.filters[i], r.vals[i])]
                S == {x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(fs) : Match(it[x], fs[i], o.links)}
            IN Fail(IsResult(it, r.r, S), "selection-" \o p.kind)
               \cup (IF p.kind = "chain" THEN Fail(r.input = r.r, "StashList.reduce-modifies-its-list")
                     ELSE Fail(r.input = q, "input-modified"))
            : k \in 1..Len(case.ops)}
          \cup Fail(o.left = IdSeq(n), "stash-modified")
=============================================================================
