--------------------------- MODULE Trace_Constants ---------------------------
(* trees are written [t, d (sequence of <<key, tree>>), l, s]                *)
(* obs.init, obs.steps[i]: [db, arg (as it is after the operation), later (the db after the *)
(* caller changed his own dictionary)]; obs.gets: [path (sequence), got]      *)
EXTENDS TraceBase, Constants

RECURSIVE Tree(_)
Tree(j) == [t |-> j.t, d |-> {<<j.d[i][1], Tree(j.d[i][2])>> : i \in 1..Len(j.d)}, l |-> j.l, s |-> j.s]
RECURSIVE Run(_, _)
Run(a, ops) == IF ops = <<>> THEN <<>> ELSE LET n == TLCEval(Do(a, Head(ops).op, Tree(Head(ops).arg))) IN <<n>> \o Run(n, Tail(ops))
C20Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET o == case.obs
           i0 == Tree(case.init)
           r == TLCEval(Run(i0, case.ops))
           n == Len(r)
           last == IF n = 0 THEN i0 ELSE r[n]
       IN Fail(Tree(o.init) = i0, "initial")
          \cup UNION {Fail(Tree(o.steps[i].db) = r[i], "after-" \o case.ops[i].op)
                      \cup Fail(Tree(o.steps[i].arg) = Tree(case.ops[i].arg), "argument-modified-by-" \o case.ops[i].op)
                      \cup Fail(Tree(o.steps[i].later) = r[i], "argument-shared-by-" \o case.ops[i].op) : i \in 1..n}
          \cup UNION {Fail(Tree(o.gets[i].got) = Get(last, o.gets[i].path), "GetByPath") : i \in 1..Len(o.gets)}
          \cup UNION {Fail(Tree(o.getters[i].got) = Get(last, o.getters[i].path), "getter") : i \in 1..Len(o.getters)}
=============================================================================
