------------------------------ MODULE StashList ------------------------------
(* Lists of items (natural numbers; their order is the order of their lines) *)
(* op: [op, l (list operated on), to (list receiving a result), arg, i, j, k] *)
(* arg: [k |-> "one", v |-> <<id>>] | [k |-> "seq", v |-> ids] | [k |-> "ref", v |-> <<list>>] *)
EXTENDS Integers, Sequences, FiniteSets
Nil == 99      \* an omitted bound of a slice
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Rng(q) == {q[i] : i \in 1..Len(q)}
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* bounds of a slice like python computes them (0-based)
Start(n, i, k) == IF k > 0 THEN (IF i = Nil THEN 0 ELSE Clamp(IF i < 0 THEN i + n ELSE i, 0, n))
                  ELSE (IF i = Nil THEN n - 1 ELSE Clamp(IF i < 0 THEN i + n ELSE i, -1, n - 1))
Stop(n, j, k) == IF k > 0 THEN (IF j = Nil THEN n ELSE Clamp(IF j < 0 THEN j + n ELSE j, 0, n))
                 ELSE (IF j = Nil THEN -1 ELSE Clamp(IF j < 0 THEN j + n ELSE j, -1, n - 1))
RECURSIVE Stride(_, _, _, _)
Stride(q, a, z, k) == IF (k > 0 /\ a >= z) \/ (k < 0 /\ a <= z) THEN <<>> ELSE <<q[a + 1]>> \o Stride(q, a + k, z, k)
Slice(q, i, j, k) == Stride(q, Start(Len(q), i, k), Stop(Len(q), j, k), k)
InsertAt(q, i, x) == LET p == Clamp(IF i < 0 THEN i + Len(q) ELSE i, 0, Len(q)) IN SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))
Where(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE RemoveEach(_, _)
RemoveEach(q, xs) == IF xs = <<>> THEN [q |-> q, e |-> ""]
                     ELSE IF Head(xs) \notin Rng(q) THEN [q |-> q, e |-> "ValueError"]
                     ELSE RemoveEach(Cut(q, Where(q, Head(xs))), Tail(xs))
Operand(ls, a) == IF a.k = "ref" THEN ls[a.v[1]] ELSE a.v

(* what a list becomes, what is answered, which exception is raised *)
Do(ls, o, kinds) ==
  LET q == ls[o.l]
      n == Len(q)
      x == Operand(ls, o.arg)
      self(v) == [ls |-> [ls EXCEPT ![o.l] = v], r |-> <<>>, e |-> ""]
      new(v) == [ls |-> [ls EXCEPT ![o.to] = v], r |-> v, e |-> ""]
      says(v) == [ls |-> ls, r |-> v, e |-> ""]
      fails(t) == [ls |-> ls, r |-> <<>>, e |-> t]
      idx == IF o.i < 0 THEN o.i + n ELSE o.i
      Bool(b) == IF b THEN <<1>> ELSE <<0>>
  IN CASE o.op = "append" -> self(q \o x)
       [] o.op = "extend" -> self(q \o x)
       [] o.op = "iadd" -> self(q \o x)
       [] o.op = "insert" -> self(InsertAt(q, o.i, x[1]))
       [] o.op = "remove" -> LET d == RemoveEach(q, x) IN [ls |-> [ls EXCEPT ![o.l] = d.q], r |-> <<>>, e |-> d.e]
       [] o.op = "add" -> new(q \o x)
       [] o.op = "radd" -> new(x \o q)
       [] o.op = "slice" -> new(Slice(q, o.i, o.j, o.k))
       [] o.op = "copy" -> new(q)
       [] o.op = "set" -> IF idx \in 0..(n - 1) THEN self([q EXCEPT ![idx + 1] = x[1]]) ELSE fails("IndexError")
       [] o.op = "index" -> IF idx \in 0..(n - 1) THEN says(<<q[idx + 1]>>) ELSE fails("IndexError")
       [] o.op = "iter" -> says(q)
       [] o.op = "len" -> says(<<n>>)
       [] o.op = "in" -> says(Bool(x[1] \in Rng(q)))
       [] o.op = "reduce" -> self(Asc({y \in Rng(q) : kinds[y] = o.i}))
       [] o.op = "get" -> new(Asc(1..Len(kinds)))
=============================================================================
