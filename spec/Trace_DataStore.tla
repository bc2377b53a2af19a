--------------------------- MODULE Trace_DataStore ---------------------------
(* case: files (world whose statements carry an assignment a), adds, path,   *)
(* env data; obs.all / obs.single: [name, items]                             *)
EXTENDS TraceBase, DataStore

StmtAt(W, fn) == LET b == Body(W, fn[1])
                     i == CHOOSE j \in 1..Len(b) : StartLine(W, fn[1], j) = fn[2]
                 IN b[i]
AsgsIn(case, o) ==
              LET s == [i \in 1..Len(o) |-> StmtAt(case.files, o[i])]
                  k == SelectSeq(s, LAMBDA x : x.k = "asg")
              IN [i \in 1..Len(k) |-> k[i].a]
\* ExpandTerm: variables with a single assignment (in one of the files linked) serve as references
EnvOf(case, q) == [defs |-> SelectSeq(case.defs, LAMBDA d : \E i \in 1..Len(q) : q[i].k = "asg" /\ q[i].base = d.name), base |-> case.base, spare |-> {}, path |-> case.path]
\* the value of a key that is a reference to itself etc. is left to C16
RECURSIVE PutAll(_, _)
PutAll(f, q) == IF q = <<>> THEN f ELSE PutAll(Put(f, Head(q).name, Head(q).val), Tail(q))
BaseOf(case) == PutAll([x \in {} |-> <<>>],
                       <<[name |-> "PN", val |-> <<[k |-> "lit", t |-> RecipeName(case.path)]>>],
                         [name |-> "PV", val |-> <<[k |-> "lit", t |-> PVof(case.path)]>>],
                         [name |-> "BPN", val |-> <<[k |-> "lit", t |-> BaseRecipeName(case.path)]>>]>> \o case.base)
Absent == <<"<absent>">>
Got(o, x) == LET S == {i \in 1..Len(o) : o[i][1] = x} IN IF S = {} THEN Absent ELSE o[CHOOSE i \in S : TRUE][2]
Mentioned(q) == {IF q[i].k = "unset" THEN q[i].name ELSE KeyOf(q[i]) : i \in 1..Len(q)}

\* keys are reported expanded; ${PN} is the only reference in the names used here
RECURSIVE PutPN(_, _)
PutPN(t, pn) == LET O == Occurrences(t, "${PN}")
                IN IF O = {} THEN t ELSE LET i == MaxOf(O) IN PutPN(Upto(t, i - 1) \o pn \o From(t, i + 5), pn)
Always(q) == {"PN", "PV", "BPN", "SOLIBS"} \cup (IF \E i \in 1..Len(q) : q[i].k = "asg" /\ q[i].base = "PN" THEN {} ELSE {"MYBASE"})

\* what one query says about the names an assignment or the base set mentions; S: names of a filtered query
Judge(case, all, q, A, o, S, suffix) ==
  LET st == TLCEval(ApplyAll(Fresh(BaseOf(case)), q))
      env == TLCEval(EnvOf(case, all))
      K == Keys(st)
  IN UNION {LET g == Got(o, PutPN(x, RecipeName(case.path)))
            IN IF x \in K
               THEN LET want == Items(st, x, env)
                    IN Fail(g # Absent, "variable-missing" \o suffix)
                       \cup (IF g = Absent THEN {} ELSE Fail(g = want, "items" \o suffix))
                       \cup UNION {IF S[i].base = x THEN Fail(Got(S[i].got, x) = want, "items-of-filtered-query" \o suffix) ELSE {} : i \in 1..Len(S)}
               ELSE Fail(g = Absent, "unset-variable-present" \o suffix)
            : x \in Mentioned(q) \cup A}

C15Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET o == TLCEval(ReadingOrder(case.files, case.adds, case.path))
           own == SelectSeq(o, LAMBDA x : x[1] = case.path)
           q == TLCEval(AsgsIn(case, o))
       IN (IF \E i \in 1..Len(case.files) : \E j \in 1..Len(case.files[i].st) :
                 case.files[i].st[j].k = "asg" /\ RenderAsg(case.files[i].st[j].a) # case.files[i].st[j].t
           THEN {"MACHINERY rendering differs"} ELSE {})
          \cup Judge(case, q, q, Always(q), case.obs.all, case.obs.single, "")
          \* without links: only what the file itself says
          \cup Judge(case, q, TLCEval(AsgsIn(case, own)), Always(q), case.obs.own, <<>>, "-of-the-file-alone")
=============================================================================
