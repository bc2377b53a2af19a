---------------------------- MODULE Trace_Robust -----------------------------
(* case: files (statements, or just text), ops; obs.ops: [op, got]; obs.links: *)
(* [p, links, origins] of every file added (only used for worlds of statements) *)
EXTENDS TraceBase, Robust

Known_(case, p) == \E i \in 1..Len(case.files) : case.files[i].p = p
C05Verdict(case) ==
  IF case.obs.error = "no termination" THEN {"terminates"}
  ELSE IF case.obs.error # "" THEN {"no-exception"}
  ELSE UNION {Fail(Ended(case.obs.ops[i]), "no-exception-in-" \o case.obs.ops[i].op) : i \in 1..Len(case.obs.ops)}
       \cup Fail(Len(case.obs.ops) >= Len(case.ops), "all-operations-end")
       \cup (IF ~case.graph THEN {}
             ELSE UNION {LET o == case.obs.links[i]
                         IN IF ~Known_(case, o.p) THEN Fail(o.links = <<>> /\ o.items = <<>>, "nothing-from-nowhere")
                            ELSE Fail(Targets(case.files, o.p) \subseteq SeqSet(o.links), "linked-to-what-it-uses")
                                 \cup Fail(o.items = [k \in 1..Len(Body(case.files, o.p)) |-> StartLine(case.files, o.p, k)], "parsed")
                        : i \in 1..Len(case.obs.links)})
=============================================================================
