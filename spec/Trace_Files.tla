----------------------------- MODULE Trace_Files ------------------------------
(* case: files, tree (paths), setters (paths), asks (<<file, pattern>>); obs.links:  *)
(* per file the files linked to it; obs.got: per ask the answer               *)
EXTENDS TraceBase, Files
C23Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET L == case.obs.links
           linked == [f \in {L[i].f : i \in 1..Len(L)} |-> LET i == CHOOSE j \in 1..Len(L) : L[j].f = f IN SeqSet(L[i].to)]
           S == SeqSet(case.setters)
           tree == TLCEval(SeqSet(case.tree) \cup {case.files[i].p : i \in 1..Len(case.files)} \cup {"/R/l/conf/layer.conf", "/R/m/conf/layer.conf"})
       IN UNION {
            LET a == case.asks[i]
                g == case.obs.got[i]
                want == Found(tree, a[1], a[2], linked, S)
            IN Fail(SeqSet(g) \subseteq want, "not-to-be-found")
               \cup Fail(want \subseteq SeqSet(g), "not-found")
               \cup Fail(Cardinality(SeqSet(g)) = Len(g), "duplicates")
               \cup Fail(SortedText(g), "sorted")
            : i \in 1..Len(case.asks)}
=============================================================================
