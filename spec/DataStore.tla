------------------------------ MODULE DataStore ------------------------------
(* The data store of bitbake: assignments in reading order, then appends and *)
(* prepends, then removes, then references.                                  *)
(* Assignment: [k |-> "asg", base, ov (sequence), d (delimiter), op, val (tokens)]                    *)
(*             [k |-> "unset", name, flag]                                                            *)
EXTENDS Expand, Store

Mods == {"append", "prepend", "remove"}
ModsOf(a) == SelectSeq(a.ov, LAMBDA x : x \in Mods)
KeyOf(a) == Join(<<a.base>> \o SelectSeq(a.ov, LAMBDA x : x \notin Mods), a.d)
FullName(a) == Join(<<a.base>> \o a.ov, a.d)
IsImmediate(a) == ModsOf(a) = <<>>

(* state: set, weak: functions name -> token sequence; defer: sequence of deferred assignments *)
Fresh(base) == [set |-> base, weak |-> <<>>, defer |-> <<>>]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Old(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
Blank == [k |-> "lit", t |-> " "]

Apply(st, a) ==
  IF a.k = "unset" THEN
    (IF a.flag # "" THEN st ELSE [st EXCEPT !.set = Del(@, a.name), !.weak = Del(@, a.name)])
  ELSE IF ~IsImmediate(a) THEN [st EXCEPT !.defer = Append(@, a)]
  ELSE LET x == KeyOf(a)
           o == Old(st.set, x)
       IN CASE a.op \in {"=", ":="} -> [st EXCEPT !.set = Put(@, x, a.val)]
            [] a.op = "?=" -> IF x \in DOMAIN st.set THEN st ELSE [st EXCEPT !.set = Put(@, x, a.val)]
            [] a.op = "??=" -> [st EXCEPT !.weak = Put(@, x, a.val)]
            [] a.op = "+=" -> [st EXCEPT !.set = Put(@, x, o \o <<Blank>> \o a.val)]
            [] a.op = "=+" -> [st EXCEPT !.set = Put(@, x, a.val \o <<Blank>> \o o)]
            [] a.op = ".=" -> [st EXCEPT !.set = Put(@, x, o \o a.val)]
            [] a.op = "=." -> [st EXCEPT !.set = Put(@, x, a.val \o o)]
RECURSIVE ApplyAll(_, _)
ApplyAll(st, q) == IF q = <<>> THEN st ELSE ApplyAll(Apply(st, Head(q)), Tail(q))

\* weak defaults, then what was deferred
RECURSIVE Deferred(_, _)
Deferred(f, q) ==
  IF q = <<>> THEN f
  ELSE LET a == Head(q)
           x == KeyOf(a)
           g == Put(f, x, Old(f, x))
       IN Deferred(IF "append" \in SeqSet(a.ov) THEN Put(g, x, g[x] \o a.val)
                   ELSE IF "prepend" \in SeqSet(a.ov) THEN Put(g, x, a.val \o g[x])
                   ELSE g, Tail(q))
Values(st) == Deferred([x \in DOMAIN st.set \cup DOMAIN st.weak |-> IF x \in DOMAIN st.set THEN st.set[x] ELSE st.weak[x]], st.defer)
RemovedOf(st, x) == SelectSeq(st.defer, LAMBDA a : KeyOf(a) = x /\ "remove" \in SeqSet(a.ov) /\ SeqSet(a.ov) \cap {"append", "prepend"} = {})

\* the items of a variable; env: see Expand
ItemsOfText(t) == Words(t, White)
Items(st, x, env) ==
  LET V == Values(st)
      r == RemovedOf(st, x)
      gone == UNION {SeqSet(ItemsOfText(Full(env, r[i].val))) : i \in 1..Len(r)}
  IN Drop(ItemsOfText(Full(env, V[x])), gone)
Keys(st) == DOMAIN Values(st)

RenderAsg(a) == IF a.k = "unset" THEN "unset " \o a.name \o (IF a.flag = "" THEN "" ELSE "[" \o a.flag \o "]") \o "\n"
                ELSE FullName(a) \o a.w1 \o a.op \o a.w2 \o "\"" \o RenderToks(a.val) \o "\"\n"
=============================================================================
