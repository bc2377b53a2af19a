--------------------------- MODULE Trace_History ---------------------------
(* obs.answers[i]: [i (index of the operation), a]; obs.fresh[i]: the answer on a *)
(* fresh stash to which only the modifying operations were applied           *)
EXTENDS TraceBase, Store

Upto2(ops, k) == SubSeq(ops, 1, k)
Adds(ops) == LET a == SelectSeq(ops, LAMBDA o : o[1] = "add") IN [i \in 1..Len(a) |-> a[i][2]]
OnlyAdds(ops) == \A i \in 1..Len(ops) : ops[i][1] \notin {"append", "remove"}
SortedSet(q, S) == SeqSet(q) = S /\ Len(q) = Cardinality(S) /\ SortedText(q)
\* what the specification of the stash says about answers
Says(case, k) ==
  LET o == case.ops[k]
      a == case.obs.answers
      i == CHOOSE j \in 1..Len(a) : a[j].i = k
      before == Upto2(case.ops, k)
  IN IF ~OnlyAdds(before) THEN {}
     ELSE LET st == TLCEval(AddAll(case.files, Empty, Adds(before)))
          IN CASE o[2] = "GetRecipes" -> Fail(SortedSet(a[i].a, Recipes(st)), "GetRecipes")
               [] o[2] = "GetLoneAppends" -> Fail(SortedSet(a[i].a, Lone(st)), "GetLoneAppends")
               [] o[2] = "GetConfFiles" -> Fail(SortedSet(a[i].a, Confs(st)), "GetConfFiles")
               [] o[2] = "GetBBClasses" -> Fail(SortedSet(a[i].a, Classes(st)), "GetBBClasses")
               [] OTHER -> {}
Named == {"GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses"}

C13Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET a == case.obs.answers
           f == case.obs.fresh
       IN UNION {Fail(a[i].a = f[i].a, "answer-depends-on-earlier-queries-" \o case.ops[a[i].i][2])
                 \cup (IF case.ops[a[i].i][2] \in Named THEN Says(case, a[i].i) ELSE {})
                 : i \in 1..Len(a)}
          \cup Fail(case.obs.dump = case.obs.freshdump, "queries-change-the-stash")

C14Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET a == case.obs.together
           f == case.obs.alone
       IN UNION {Fail(a[i].a = f[i].a, "answer-influenced-" \o a[i].q) : i \in 1..Len(a)}
          \cup Fail(Len(a) = Len(f), "answers-missing")
=============================================================================
