----------------------------- MODULE Trace_Store -----------------------------
(* case: files (world), ops; obs.main.dump and dumps of variants             *)
EXTENDS TraceBase, Store

Adds(ops) == LET a == SelectSeq(ops, LAMBDA o : o[1] = "add") IN [i \in 1..Len(a) |-> a[i][2]]
StateAfter(case, ops) == TLCEval(AddAll(case.files, Empty, Adds(ops)))
FinalState(case) == StateAfter(case, case.ops)
Rec(d, p) == LET i == CHOOSE j \in 1..Len(d.files) : d.files[j].p = p IN d.files[i]
Origins(q) == {q[i].f : i \in 1..Len(q)}
FN(q) == [i \in 1..Len(q) |-> <<q[i].f, q[i].n>>]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
IsSet(q) == Cardinality(SeqSet(q)) = Len(q)
SameBag(a, b) == Len(a) = Len(b) /\ (IF IsSet(a) THEN SeqSet(a) = SeqSet(b)
                                     ELSE \A x \in SeqSet(a) : Count(a, x) = Count(b, x))
OriginsOf(st, d) == TLCEval([p \in Known(st) |-> Origins(Rec(d, p).all)])

\* the items of the stash are those of the specification
SameItems(st, d) == SameBag(FN(d.items), FN(st.items))
ItemsOf(st, F) == SelectSeq(FN(st.items), LAMBDA x : x[1] \in F)

---------------------------------------------------------------------------
LinkClauses(st, d) ==
  LET O == OriginsOf(st, d)
      U == Uses(st)
  IN
  UNION {
    LET r == Rec(d, p)
        o == O[p]
    IN Fail(o \subseteq May(U, p), "linked-to-unreachable-file")
       \cup Fail((Must(U, p) \cap WithItems(st)) \subseteq o, "link-missing")
       \cup Fail(SeqSet(r.links) = o \ {p}, "GetLinksForFile-disagrees")
       \cup Fail(SameBag(FN(r.own), ItemsOf(st, {p})), "nolink-items")
       \cup Fail(SameBag(FN(r.all), ItemsOf(st, o)), "items-of-linked-files-incomplete")
    : p \in Known(st)}
  \cup Fail(\A i \in 1..Len(d.inc) :
              SeqSet(d.inc[i].from) = {p \in Known(st) : d.inc[i].f \in O[p]}, "IncludedFrom-disagrees")
SameLinks(st, a, b) == \A p \in Known(st) : Origins(Rec(a, p).all) = Origins(Rec(b, p).all)
GrowingLinks(st, a, b) == \A p \in Known(st) : Origins(Rec(a, p).all) \subseteq Origins(Rec(b, p).all)

C07Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET st == FinalState(case)
           d == case.obs.main.dump
       IN Fail(SameItems(st, d), "items-in-stash")
          \cup LinkClauses(st, d)
          \cup (IF "once" \in DOMAIN case.obs THEN Fail(GrowingLinks(st, case.obs.once.dump, d), "Finalize-removed-links") ELSE {})
          \cup (IF "noqueries" \in DOMAIN case.obs THEN Fail(SameLinks(st, case.obs.noqueries.dump, d), "links-depend-on-queries") ELSE {})
          \cup (IF "reordered" \in DOMAIN case.obs THEN LinkClauses(StateAfter(case, case.variants.reordered), case.obs.reordered.dump)
             ELSE {})

---------------------------------------------------------------------------
C08Clauses(case, ops, d) ==
  LET st == StateAfter(case, ops)
      R == Recipes(st)
      A == {p \in Known(st) : IsAppend(p)}
  IN UNION {Fail(Origins(Rec(d, r).all) \cap A = {a \in A \cap WithItems(st) : Applies(a, r)}, "appends-of-recipe") : r \in R}
     \cup Fail(SeqSet(d.recipes) = R /\ IsSet(d.recipes) /\ SortedText(d.recipes), "GetRecipes")
     \cup Fail(SeqSet(d.lone) = Lone(st) /\ IsSet(d.lone) /\ SortedText(d.lone), "GetLoneAppends")
     \cup UNION {Fail(SeqSet(Rec(d, r).links) \cap A = {a \in A \cap WithItems(st) : Applies(a, r)}, "GetLinksForFile") : r \in R}
C08Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE C08Clauses(case, case.ops, case.obs.main.dump)
       \cup (IF "reordered" \in DOMAIN case.obs
             THEN C08Clauses(case, case.variants.reordered, case.obs.reordered.dump)
                  \cup Fail(case.obs.reordered.dump.recipes = case.obs.main.dump.recipes
                            /\ case.obs.reordered.dump.lone = case.obs.main.dump.lone, "sorted")
             ELSE {})

---------------------------------------------------------------------------
\* number of leading statements of a recipe up to and including the first that pulls something in
RECURSIVE Lead(_, _, _)
Lead(W, b, i) == IF i > Len(b) THEN Len(b)
                 ELSE IF \E t \in SeqSet(b[i].to) : t \in Paths(W) THEN i
                 ELSE Lead(W, b, i + 1)
C09Clauses(case, ops, d) ==
  LET st == StateAfter(case, ops)
      U == Uses(st)
  IN UNION {
       LET r == Rec(d, p)
           o == Origins(r.all)
           ro == ReadingOrder(case.files, Adds(ops), p)
           want == SelectSeq(ro, LAMBDA x : x[1] \in o)
           k == Lead(case.files, Body(case.files, p), 1)
           s == IF k = 0 THEN 0 ELSE StartLine(case.files, p, k)
       IN Fail(FN(r.all) = want, "reading-order")
          \cup Fail(\A i \in 1..(Len(r.all) - 1) : r.all[i].l < r.all[i + 1].l, "lines-strictly-increasing")
          \cup Fail(\A i \in 1..Len(r.all) : (r.all[i].f = p /\ r.all[i].n <= s) => r.all[i].l = r.all[i].n, "line-equals-infileline")
          \cup Fail(Must(U, p) \cap WithItems(st) \subseteq o, "file-missing")
       : p \in Recipes(st)}
C09Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE C09Clauses(case, case.ops, case.obs.main.dump)
       \cup (IF "reordered" \in DOMAIN case.obs
             THEN C09Clauses(case, case.variants.reordered, case.obs.reordered.dump)
                  \cup UNION {Fail(FN(Rec(case.obs.reordered.dump, p).all) = FN(Rec(case.obs.main.dump, p).all), "order-depends-on-order-of-adding")
                              : p \in Recipes(FinalState(case))}
             ELSE {})

---------------------------------------------------------------------------
C10Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE LET st == FinalState(case)
           d == case.obs.main.dump
           W == case.files
           once == {p \in Known(st) : OnceOnly(p)}
       IN UNION {Fail(SameBag(SelectSeq(FN(d.items), LAMBDA x : x[1] = p),
                              [i \in 1..Len(Body(W, p)) |-> <<p, StartLine(W, p, i)>>]), "parsed-once") : p \in once}
          \cup Fail(SameItems(st, d), "items-in-stash")
          \cup UNION {UNION {
                 LET c == {t \in SeqSet(Body(W, p)[i].to) : t \in Paths(W)}
                     n == StartLine(W, p, i)
                 IN Fail(\A j \in 1..Len(d.inh) : (d.inh[j].f = p /\ d.inh[j].n = n) => SeqSet(d.inh[j].paths) = c, "FilePaths")
                    \cup Fail(\E j \in 1..Len(d.inh) : d.inh[j].f = p /\ d.inh[j].n = n, "inherit-item-missing")
                    \cup Fail(c \cap WithItems(st) \subseteq Origins(Rec(d, p).all), "inheritor-not-linked")
                    \cup UNION {Fail(SameBag(SelectSeq(FN(Rec(d, p).all), LAMBDA x : x[1] = q), ItemsOf(st, {q})), "inheritor-does-not-see-items") : q \in c}
                 : i \in {k \in 1..Len(Body(W, p)) : Body(W, p)[k].k = "inh"}}
              : p \in Known(st)}
          \cup Fail(SeqSet(d.classes) = Classes(st) /\ IsSet(d.classes) /\ SortedText(d.classes), "GetBBClasses")
          \cup Fail(SeqSet(d.confs) = Confs(st) /\ IsSet(d.confs) /\ SortedText(d.confs), "GetConfFiles")
          \cup Fail(SeqSet(d.recipes) = Recipes(st) /\ IsSet(d.recipes) /\ SortedText(d.recipes), "GetRecipes")
=============================================================================
