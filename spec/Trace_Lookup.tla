---------------------------- MODULE Trace_Lookup -----------------------------
(* case: files [p, st] (everything that exists), adds, finds <<name, dir>>,   *)
(* roots, base <<name, value>>, ignore [classes, includes]                    *)
(* statement: [k, n, w (as written), kw, v, t]                                *)
EXTENDS TraceBase, Lookup
S == INSTANCE Store

RECURSIVE Subst(_, _)
Subst(t, env) == IF env = <<>> THEN t ELSE Subst(Replace(t, "${" \o env[1][1] \o "}", env[1][2]), Tail(env))
StOf(case, p) == case.files[CHOOSE j \in 1..Len(case.files) : case.files[j].p = p].st
VarsOf(case, p) == LET v == SelectSeq(StOf(case, p), LAMBDA s : s.k = "var") IN [i \in 1..Len(v) |-> <<v[i].v, v[i].t>>]
NameEnv(p) == <<<<"PN", RecipeName(p)>>, <<"BPN", BaseRecipeName(p)>>, <<"PV", PVof(p)>>, <<"THISDIR", NDir(p)>>>>

One(case, tree, p, s, env) ==
  IF s.k = "inc"
  THEN LET n == Subst(s.w[1], env)
           f == FindName(tree, n, NDir(p))
       IN [found |-> <<f>>, to |-> IF f = "" \/ n \in SeqSet(case.ignore.includes) THEN <<>> ELSE <<f>>,
           plain |-> f # "" /\ n \in SeqSet(case.ignore.includes)]
  ELSE IF s.k = "inh"
  THEN LET ws == Words(Subst(Join(s.w, " "), env), {" ", "\t"})
           keep == SelectSeq(ws, LAMBDA c : (IF EndsWith(c, ".bbclass") THEN Upto(c, Len(c) - 8) ELSE c) \notin SeqSet(case.ignore.classes))
           fs == SelectSeq([i \in 1..Len(keep) |-> FindClass(tree, s.kw, keep[i], NDir(p))], LAMBDA f : f # "")
       IN [found |-> fs, to |-> fs, plain |-> FALSE]
  ELSE [found |-> <<>>, to |-> <<>>, plain |-> FALSE]
RECURSIVE ResolveFrom(_, _, _, _, _)
ResolveFrom(case, tree, p, i, env) ==
  LET st == StOf(case, p)
  IN IF i > Len(st) THEN <<>>
     ELSE LET r == One(case, tree, p, st[i], env)
              more == FlattenSeqs([j \in 1..Len(r.to) |-> VarsOf(case, r.to[j])])
          IN <<r>> \o ResolveFrom(case, tree, p, i + 1, env \o more)

C11Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET o == case.obs
           tree == TLCEval({case.files[i].p : i \in 1..Len(case.files)})
           base == case.base
           R == TLCEval([p \in tree |-> ResolveFrom(case, tree, p, 1, NameEnv(p) \o base)])
           W == TLCEval([i \in 1..Len(case.files) |-> [p |-> case.files[i].p,
                   st |-> [k \in 1..Len(case.files[i].st) |-> [n |-> case.files[i].st[k].n, k |-> case.files[i].st[k].k, to |-> R[case.files[i].p][k].to]]]])
           st == TLCEval(S!AddAll(W, S!Empty, case.adds))
           K == S!Known(st)
           KI == {p \in K : StOf(case, p) # <<>>}
           St(p, n) == LET q == StOf(case, p) IN CHOOSE i \in 1..Len(q) : S!StartLine(W, p, i) = n
           Names(kind) == UNION {ConfNames(tree, LayerOf(tree, p), kind) : p \in K}
       IN UNION {Fail(Norm(o.finds[i]) = FindName(tree, case.finds[i][1], case.finds[i][2]), "FindLocalOrLayer") : i \in 1..Len(case.finds)}
          \cup UNION {Fail(o.roots[i] = (IF case.roots[i] \in tree THEN LayerOf(tree, case.roots[i]) ELSE RootAt(tree, case.roots[i])), "GetLayerRoot") : i \in 1..Len(case.roots)}
          \cup Fail(SeqSet(o.origins) \subseteq KI, "used-file-that-is-not-meant")
          \cup Fail(KI \subseteq SeqSet(o.origins), "file-not-used")
          \cup UNION {LET x == o.inc[i] IN
                 IF x.f \notin K THEN {} ELSE Fail(Norm(x.to) = R[x.f][St(x.f, x.n)].found[1], "FileIncluded") : i \in 1..Len(o.inc)}
          \cup UNION {LET x == o.inh[i] IN
                 IF x.f \notin K THEN {} ELSE Fail({Norm(y) : y \in SeqSet(x.to)} = SeqSet(R[x.f][St(x.f, x.n)].found), "FilePaths") : i \in 1..Len(o.inh)}
          \cup UNION {UNION {
                 Fail((StOf(case, p)[k].k = "inc" /\ ~R[p][k].plain) => \E i \in 1..Len(o.inc) : o.inc[i].f = p /\ o.inc[i].n = S!StartLine(W, p, k), "include-item-missing")
                 \cup Fail(StOf(case, p)[k].k = "inh" => \E i \in 1..Len(o.inh) : o.inh[i].f = p /\ o.inh[i].n = S!StartLine(W, p, k), "inherit-item-missing")
                 : k \in 1..Len(StOf(case, p))} : p \in KI \cap SeqSet(o.origins)}
          \cup Fail(SeqSet(o.machines) = SeqSet(o.machines0) \cup Names("machine"), "machines")
          \cup Fail(SeqSet(o.distros) = SeqSet(o.distros0) \cup Names("distro"), "distros")
=============================================================================
