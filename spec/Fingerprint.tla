----------------------------- MODULE Fingerprint ------------------------------
(* What the fingerprint of a stash stands for: the options of the stash and  *)
(* the texts of everything parsed so far, in the order parsing completed.     *)
(* Nothing else has an influence: no query, no Finalize, no other stash, no   *)
(* process. A world is a sequence of files [p, st, text].                     *)
EXTENDS Store

TextOf(W, p) == LET i == CHOOSE j \in 1..Len(W) : W[j].p = p IN W[i].text
RECURSIVE Events(_, _, _, _), EventsOf(_, _, _, _, _), EventsTo(_, _, _, _)
\* parse file p: what p pulls in completes before p itself
Events(W, p, active, once) ==
  IF p \notin Paths(W) \/ p \in active \/ (OnceOnly(p) /\ p \in once) THEN [q |-> <<>>, once |-> once]
  ELSE LET r == EventsOf(W, p, 1, active \cup {p}, once \cup {p})
       IN [q |-> r.q \o (IF TextOf(W, p) = "" THEN <<>> ELSE <<<<p, TextOf(W, p)>>>>), once |-> r.once]
EventsOf(W, p, i, active, once) ==
  IF i > Len(Body(W, p)) THEN [q |-> <<>>, once |-> once]
  ELSE LET a == EventsTo(W, Body(W, p)[i].to, active, once)
           b == EventsOf(W, p, i + 1, active, a.once)
       IN [q |-> a.q \o b.q, once |-> b.once]
EventsTo(W, to, active, once) ==
  IF to = <<>> THEN [q |-> <<>>, once |-> once]
  ELSE LET a == Events(W, Head(to), active, once)
           b == EventsTo(W, Tail(to), active, a.once)
       IN [q |-> a.q \o b.q, once |-> b.once]

\* state of one stash
New(opts) == [opts |-> opts, q |-> <<>>, once |-> {}, adds |-> <<>>]
\* what tells two stashes apart, and (with the lines at which files were pulled in) all that may have an influence
Mark(s) == <<s.opts, s.q>>
Cause(s) == <<s.opts, s.q, s.adds>>
AfterAdd(W, s, p) == LET r == Events(W, p, {}, s.once) IN [s EXCEPT !.q = @ \o r.q, !.once = r.once, !.adds = IF r.q = <<>> THEN @ ELSE Append(@, p)]
AfterOp(W, s, op) == IF op[1] = "add" THEN AfterAdd(W, s, op[2]) ELSE s
RECURSIVE MarksOf(_, _, _, _)
MarksOf(W, s, ops, acc) == IF ops = <<>> THEN acc
                            ELSE LET n == AfterOp(W, s, Head(ops)) IN MarksOf(W, n, Tail(ops), Append(acc, n))
Marks(W, opts, ops) == MarksOf(W, New(opts), ops, <<>>)
=============================================================================
