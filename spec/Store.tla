------------------------------- MODULE Store --------------------------------
(* The stash: which files have been parsed, the items they left, how files   *)
(* are linked, and the overall line numbers.                                 *)
(*                                                                           *)
(* A world is a sequence of files [p: path, st: statements]; a statement is  *)
(* [k, n, to]: k = "inc" (one target), "inh" (any number of targets) or      *)
(* anything else (no effect on other files), n = number of lines, to =       *)
(* sequence of paths, "" for what cannot be found.                           *)
EXTENDS Text

IsExt(p, e) == EndsWith(p, e)
IsRecipe(p) == IsExt(p, ".bb")
IsAppend(p) == IsExt(p, ".bbappend")
IsClass(p)  == IsExt(p, ".bbclass")
IsConf(p)   == IsExt(p, ".conf")
\* parsed at most once per stash
OnceOnly(p) == IsClass(p) \/ IsAppend(p)

BaseName(p) == LET O == Occurrences(p, "/") IN IF O = {} THEN p ELSE From(p, MaxOf(O) + 1)
DirName(p)  == LET O == Occurrences(p, "/") IN IF O = {} THEN "" ELSE Upto(p, MaxOf(O) - 1)
Stem(p, e)  == LET b == BaseName(p) IN Upto(b, Len(b) - Len(e))

\* text against the pieces of a pattern between its '%'
RECURSIVE PiecesMatch(_, _)
PiecesMatch(ps, s) ==
  IF Len(ps) = 1 THEN EndsWith(s, ps[1])
  ELSE \E i \in 1..(Len(s) + 1) : At(s, i, ps[1]) /\ PiecesMatch(Tail(ps), From(s, i + Len(ps[1])))
NameMatches(pattern, s) ==
  LET ps == SplitAt(pattern, "%")
  IN IF Len(ps) = 1 THEN s = pattern
     ELSE StartsWith(s, ps[1]) /\ PiecesMatch(Tail(ps), From(s, Len(ps[1]) + 1))
Applies(append, recipe) == /\ IsAppend(append) /\ IsRecipe(recipe)
                           /\ NameMatches(Stem(append, ".bbappend"), Stem(recipe, ".bb"))

---------------------------------------------------------------------------
(* World *)
Paths(W) == {W[i].p : i \in 1..Len(W)}
Body(W, p) == LET i == CHOOSE j \in 1..Len(W) : W[j].p = p IN W[i].st
RECURSIVE LinesBefore(_, _)
LinesBefore(b, i) == IF i <= 1 THEN 0 ELSE b[i - 1].n + LinesBefore(b, i - 1)
StartLine(W, p, i) == 1 + LinesBefore(Body(W, p), i)
Targets(W, p) == {t \in UNION {SeqSet(Body(W, p)[i].to) : i \in 1..Len(Body(W, p))} : t \in Paths(W)}

---------------------------------------------------------------------------
(* State *)
Empty == [items |-> <<>>, edges |-> {}, once |-> {}, parsed |-> <<>>, active |-> {}, blocks |-> <<>>, shift |-> <<>>]
\* items:  [f, s (statement), n (line in file), l (overall line), id]
\* parsed: sequence of distinct files in the order their parsing completed
\* blocks: <<path, set of item ids>> per recipe/bbappend with everything it pulled in

MaxLine(items, k, base) == LET S == {items[i].l : i \in (k + 1)..Len(items)}
                           IN IF S = {} THEN base ELSE MaxOf(S)

RECURSIVE AddFile(_, _, _, _, _), RunStmts(_, _, _, _, _, _, _), RunTargets(_, _, _, _, _, _)

\* parse file p with the given line offset on behalf of file "from" ("" if none)
AddFile(W, st, p, off, from) ==
  LET s0 == IF from = "" THEN st ELSE [st EXCEPT !.edges = @ \cup {<<from, p>>}]
  IN IF p \in s0.active \/ (OnceOnly(p) /\ p \in s0.once) THEN s0
     ELSE LET s1 == [s0 EXCEPT !.active = @ \cup {p}, !.once = @ \cup {p}]
              s2 == RunStmts(W, s1, p, 1, off, 0, <<>>)
              s3 == [s2 EXCEPT !.active = @ \ {p},
                               !.parsed = IF p \in SeqSet(@) THEN @ ELSE Append(@, p)]
              s4 == [s3 EXCEPT !.edges = @ \cup {<<r, a>> \in SeqSet(s3.parsed) \X SeqSet(s3.parsed) :
                                                    (r = p \/ a = p) /\ Applies(a, r)}]
          IN IF IsRecipe(p) \/ IsAppend(p)
             THEN [s4 EXCEPT !.blocks = Append(@, [p |-> p, a |-> Len(st.items) + 1, z |-> Len(s4.items)])]
             ELSE s4

RunStmts(W, st, p, i, off, inco, own) ==
  IF i > Len(Body(W, p)) THEN [st EXCEPT !.items = @ \o own]
  ELSE LET b == Body(W, p)[i]
           n == StartLine(W, p, i)
           it == [f |-> p, s |-> i, n |-> n, l |-> n + off + inco]
           r == RunTargets(W, st, p, b.to, n + off + inco, inco)
       IN RunStmts(W, r.st, p, i + 1, off, r.inco, Append(own, it))

RunTargets(W, st, p, to, line, inco) ==
  IF to = <<>> THEN [st |-> st, inco |-> inco]
  ELSE IF Head(to) \notin Paths(W) THEN RunTargets(W, st, p, Tail(to), line, inco)
  ELSE LET k == Len(st.items)
           s1 == AddFile(W, st, Head(to), line, p)
           d == MaxLine(s1.items, k, line) - line
       IN RunTargets(W, s1, p, Tail(to), line + d, inco + d)

\* overall lines of bbappends: behind everything of the recipes they apply to
BlockMax(items, b) == LET S == {items[i].l : i \in b.a..b.z} IN IF S = {} THEN 0 ELSE MaxOf(S)
RECURSIVE Place(_, _, _)
\* ends: function recipe -> last line
Place(items, blocks, ends) ==
  IF blocks = <<>> THEN items
  ELSE LET b == Head(blocks)
           rs == {r \in DOMAIN ends : Applies(b.p, r)}
           o == IF rs = {} THEN 0 ELSE MaxOf({ends[r] : r \in rs})
           i2 == [i \in 1..Len(items) |-> IF i \in b.a..b.z THEN [items[i] EXCEPT !.l = @ + o] ELSE items[i]]
           m == BlockMax(i2, b)
       IN IF ~IsAppend(b.p) THEN Place(items, Tail(blocks), ends)
          ELSE Place(i2, Tail(blocks), [r \in DOMAIN ends |-> IF r \in rs /\ m > 0 THEN m ELSE ends[r]])
Placed(st) ==
  LET R == {st.blocks[i].p : i \in {j \in 1..Len(st.blocks) : IsRecipe(st.blocks[j].p)}}
      ends == [r \in R |-> MaxOf({0} \cup {BlockMax(st.items, st.blocks[j]) : j \in {k \in 1..Len(st.blocks) : st.blocks[k].p = r}})]
  IN Place(st.items, st.blocks, ends)

RECURSIVE AddAll(_, _, _)
AddAll(W, st, ps) == IF ps = <<>> THEN st ELSE AddAll(W, AddFile(W, st, Head(ps), 0, ""), Tail(ps))

---------------------------------------------------------------------------
(* Links. Known: the files of the stash; Step: what a file uses directly     *)
Known(st) == SeqSet(st.parsed)
\* what every file uses directly
Uses(st) == TLCEval([p \in Known(st) |-> {e[2] : e \in {x \in st.edges : x[1] = p}}])
Step(U, S) == TLCEval(S \cup UNION {U[p] : p \in S})
RECURSIVE Closure(_, _)
Closure(U, S) == LET n == Step(U, S) IN IF n = S THEN S ELSE Closure(U, n)
Reachable(U, p) == Closure(U, {p})
Near(U, p) == Step(U, Step(U, {p}))
\* every file on the way includes or inherits just one other file
RECURSIVE IsChain(_, _, _)
IsChain(U, p, seen) ==
  LET nx == TLCEval(U[p] \ {p})
  IN IF nx = {} THEN TRUE
     ELSE Cardinality(nx) = 1 /\ (\A q \in nx : q \notin seen /\ ~IsAppend(q) /\ IsChain(U, q, seen \cup {q}))
Must(U, p) == IF IsChain(U, p, {p}) THEN Reachable(U, p) ELSE Near(U, p)
May(U, p) == Reachable(U, p)

WithItems(st) == {st.items[i].f : i \in 1..Len(st.items)}
Recipes(st) == {p \in Known(st) : IsRecipe(p)}
Lone(st) == {a \in WithItems(st) : IsAppend(a) /\ ~\E r \in Recipes(st) : Applies(a, r)}
Classes(st) == {p \in WithItems(st) : IsClass(p)}
Confs(st) == {p \in WithItems(st) : IsConf(p)}

---------------------------------------------------------------------------
(* The order in which bitbake reads a recipe, stated directly on the world:  *)
(* what is pulled in stands behind the pulling statement; classes once.      *)
RECURSIVE Read(_, _, _, _), ReadStmts(_, _, _, _, _), ReadTargets(_, _, _, _)
Read(W, p, active, done) ==
  IF p \in active \/ (OnceOnly(p) /\ p \in done) \/ p \notin Paths(W) THEN [q |-> <<>>, done |-> done]
  ELSE ReadStmts(W, p, 1, active \cup {p}, done \cup {p})
ReadStmts(W, p, i, active, done) ==
  IF i > Len(Body(W, p)) THEN [q |-> <<>>, done |-> done]
  ELSE LET a == ReadTargets(W, Body(W, p)[i].to, active, done)
           b == ReadStmts(W, p, i + 1, active, a.done)
       IN [q |-> <<<<p, StartLine(W, p, i)>>>> \o a.q \o b.q, done |-> b.done]
ReadTargets(W, to, active, done) ==
  IF to = <<>> THEN [q |-> <<>>, done |-> done]
  ELSE LET a == Read(W, Head(to), active, done)
           b == ReadTargets(W, Tail(to), active, a.done)
       IN [q |-> a.q \o b.q, done |-> b.done]
\* recipe first, then its bbappends in the order they were added
RECURSIVE ReadMany(_, _, _)
ReadMany(W, ps, done) == IF ps = <<>> THEN <<>>
                         ELSE LET a == Read(W, Head(ps), {}, done) IN a.q \o ReadMany(W, Tail(ps), a.done)
AppendsOf(adds, r) == SelectSeq(Dedup(adds), LAMBDA x : Applies(x, r))
ReadingOrder(W, adds, r) == ReadMany(W, <<r>> \o AppendsOf(adds, r), {})
=============================================================================
