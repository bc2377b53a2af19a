------------------------------- MODULE Robust --------------------------------
(* Parsing as a machine that takes one small step after the other: a stack  *)
(* of files being parsed, each at one target of one of its statements. It    *)
(* works on any graph of files, including cycles, files that use themselves, *)
(* and targets that cannot be found or are directories.                      *)
EXTENDS Store

NoFrames == <<>>
Frame(p) == [p |-> p, i |-> 1, t |-> 1]
Stack(m) == {m.stack[k].p : k \in 1..Len(m.stack)}
Start == [stack |-> NoFrames, edges |-> {}, once |-> {}, parsed |-> <<>>]
Body_(W, f) == Body(W, f.p)
\* what the file on top of the stack does next: "use" a target, go to the "next" statement, or "leave"
Doing(W, m) == LET f == m.stack[Len(m.stack)]
                   b == Body_(W, f)
               IN IF f.i > Len(b) THEN "leave" ELSE IF f.t > Len(b[f.i].to) THEN "next" ELSE "use"
Top(m) == m.stack[Len(m.stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Target(W, m) == Body_(W, Top(m))[Top(m).i].to[Top(m).t]
Found(W, t) == t \in Paths(W)
Needless(m, t) == t \in Stack(m) \/ (OnceOnly(t) /\ t \in m.once)
Advance(m, f) == [m EXCEPT !.stack = Append(Pop(@), f)]
Link(m, a, b) == [m EXCEPT !.edges = @ \cup {<<a, b>>}]
Push(m, t) == [m EXCEPT !.stack = Append(@, Frame(t)), !.once = @ \cup {t}]

Applied(done) == {<<r, a>> \in done \X done : Applies(a, r)}
SmallStep(W, m) ==
  LET f == Top(m)
      d == Doing(W, m)
  IN CASE d = "next"  -> Advance(m, [f EXCEPT !.i = @ + 1, !.t = 1])
       [] d = "leave" -> LET done == IF f.p \in SeqSet(m.parsed) THEN m.parsed ELSE Append(m.parsed, f.p)
                         IN [m EXCEPT !.stack = Pop(@), !.parsed = done,
                                      !.edges = @ \cup {e \in Applied(SeqSet(done)) : f.p \in {e[1], e[2]}}]
       [] d = "use"   -> LET t == Target(W, m)
                             on == Advance(m, [f EXCEPT !.t = @ + 1])
                         IN IF ~Found(W, t) THEN on
                            ELSE IF Needless(m, t) THEN Link(on, f.p, t)
                            ELSE Push(Link(on, f.p, t), t)
\* a file to add: nothing happens for what is no file
Begin(W, m, p) == IF ~Found(W, p) \/ (OnceOnly(p) /\ p \in m.once) THEN m ELSE Push(m, p)

---------------------------------------------------------------------------
(* Verdict on what was observed: every operation ended, none raised anything *)
Ended(o) == o.got = "ok"
=============================================================================
