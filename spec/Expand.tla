------------------------------- MODULE Expand -------------------------------
(* Substitution of references. A text is a sequence of tokens:               *)
(*   lit [t]    plain text                                                   *)
(*   ref [x]    ${x}                                                         *)
(*   get [x,w]  d.getVar('x') in python code, written as w                   *)
(*   file [w,t] oe.utils.read_file of a file beside the recipe, written as w;*)
(*              t its content                                                *)
(* env: [defs |-> <<[name, val]>>, base |-> <<[name, val]>>, spare |-> set,  *)
(*       path |-> file]; val is a sequence of tokens.                        *)
EXTENDS Names

RenderTok(k) == CASE k.k = "lit" -> k.t
                  [] k.k = "ref" -> "${" \o k.x \o "}"
                  [] k.k = "file" -> k.w
                  [] k.k = "get" -> (IF "w" \in DOMAIN k THEN k.w ELSE "d.getVar('" \o k.x \o "')")
RenderToks(q) == Concat([i \in 1..Len(q) |-> RenderTok(q[i])])

Has(list, x) == \E i \in 1..Len(list) : list[i].name = x
ValOf(list, x) == LET i == CHOOSE j \in 1..Len(list) : list[j].name = x IN list[i].val
Builtins == {"PN", "BPN", "PV", "FILE", "THISDIR"}
Builtin(env, x) == CASE x = "PN" -> RecipeName(env.path)
                     [] x = "BPN" -> BaseRecipeName(env.path)
                     [] x = "PV" -> PVof(env.path)
                     [] x = "FILE" -> env.path
                     [] x = "THISDIR" -> NDir(env.path)
IsSet(env, x) == Has(env.defs, x) \/ Has(env.base, x)
TokensOf(env, x) == IF Has(env.defs, x) THEN ValOf(env.defs, x) ELSE ValOf(env.base, x)
RefsOf(q) == {q[i].x : i \in {j \in 1..Len(q) : q[j].k \notin {"lit", "file"}}}

(* declarative: every reference replaced by its fully expanded value *)
RECURSIVE Full(_, _)
Full(env, q) ==
  Concat([i \in 1..Len(q) |->
    IF q[i].k = "lit" THEN q[i].t
    ELSE IF q[i].k = "file" THEN (IF "THISDIR" \in env.spare THEN "" ELSE q[i].t)
    ELSE IF q[i].x \in env.spare THEN RenderTok(q[i])
    ELSE IF IsSet(env, q[i].x) THEN Full(env, TokensOf(env, q[i].x))
    ELSE IF q[i].x \in Builtins THEN
      (IF q[i].k = "get" /\ q[i].x \in {"FILE", "THISDIR"} THEN "\"" \o Builtin(env, q[i].x) \o "\"" ELSE Builtin(env, q[i].x))
    ELSE RenderTok(q[i])])

\* names reachable over references from a set of names
RECURSIVE ReachN(_, _)
ReachN(env, S) == LET n == TLCEval(S \cup UNION {IF IsSet(env, x) /\ x \notin env.spare THEN RefsOf(TokensOf(env, x)) ELSE {} : x \in S})
                  IN IF n = S THEN S ELSE ReachN(env, n)
Acyclic(env, q) == \A x \in ReachN(env, RefsOf(q)) :
                     (IsSet(env, x) /\ x \notin env.spare) => x \notin ReachN(env, RefsOf(TokensOf(env, x)))

(* algorithmic: values are remembered, what is under way counts as empty.    *)
(* Works on tokens and yields tokens.                                        *)
SeenVal(seen, x) == LET i == CHOOSE j \in 1..Len(seen) : seen[j].name = x IN seen[i].val
SeenHas(seen, x) == \E i \in 1..Len(seen) : seen[i].name = x
RECURSIVE Eval(_, _, _)
Eval(env, q, seen) ==
  IF q = <<>> THEN [r |-> <<>>, seen |-> seen]
  ELSE LET k == Head(q)
           one == IF k.k \in {"lit", "file"} \/ ~IsSet(env, k.x) \/ k.x \in env.spare THEN [r |-> <<k>>, seen |-> seen]
                  ELSE IF SeenHas(seen, k.x) THEN [r |-> SeenVal(seen, k.x), seen |-> seen]
                  ELSE LET s0 == Append(seen, [name |-> k.x, val |-> <<>>])
                           e == Eval(env, TokensOf(env, k.x), s0)
                       IN [r |-> e.r, seen |-> [i \in 1..Len(e.seen) |-> IF e.seen[i].name = k.x THEN [name |-> k.x, val |-> e.r] ELSE e.seen[i]]]
           rest == Eval(env, Tail(q), one.seen)
       IN [r |-> one.r \o rest.r, seen |-> rest.seen]
EvalTerm(env, q) == Eval(env, q, <<>>).r
=============================================================================
