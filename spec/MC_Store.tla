------------------------------ MODULE MC_Store ------------------------------
(* All small worlds and all orders of adding their top-level files: the      *)
(* offset arithmetic of the stash yields the reading order.                  *)
EXTENDS Store, Json
CONSTANT Size
VARIABLES W, st, adds
vars == <<W, st, adds>>

R  == "/R/l/recipes/r_1.bb"
A1 == "/R/l/recipes/r_%.bbappend"
A2 == "/R/l/recipes/r_1.bbappend"
I  == "/R/l/recipes/i.inc"
J  == "/R/l/recipes/j.inc"
K  == "/R/l/recipes/k.inc"
C  == "/R/l/classes/c.bbclass"
D  == "/R/l/classes/d.bbclass"

txt(n) == [k |-> "var", n |-> n, to |-> <<>>]
inc(p) == [k |-> "inc", n |-> 1, to |-> <<p>>, kw |-> "require"]
inh(q) == [k |-> "inh", n |-> 1, to |-> q, kw |-> "inherit"]

SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
RBodies == {b \in SeqsUpTo({txt(1), txt(2), inc(I), inh(<<C>>), inh(<<D, C>>)}, 2 + Size) : b # <<>>}
IBodies == SeqsUpTo({txt(2), inc(J), inh(<<C>>)}, Size + 1)
JBodies == {<<>>, <<txt(1)>>, <<txt(1), inh(<<C>>)>>}
A1Bodies == {<<txt(1)>>, <<inc(K), txt(2)>>}
Uses2(b, p) == \E i \in 1..Len(b) : p \in SeqSet(b[i].to)

File(p, b) == [p |-> p, st |-> b]
World(r, i, j, a) == <<File(R, r), File(I, i), File(J, j), File(C, <<txt(2)>>), File(D, <<txt(1)>>),
                       File(A1, a), File(K, <<txt(1)>>), File(A2, <<txt(3)>>)>>
\* files nobody uses do not multiply the worlds
Worlds == {World(r, i, j, a) : r \in {x \in RBodies : Uses2(x, I)}, i \in IBodies, j \in JBodies, a \in A1Bodies}
          \cup {World(r, <<>>, <<>>, a) : r \in RBodies, a \in A1Bodies}

Tops == {R, A1, A2}
Init == W \in Worlds /\ st = Empty /\ adds = <<>>
Add(p) == /\ p \notin SeqSet(adds)
          /\ adds' = Append(adds, p)
          /\ st' = AddFile(W, st, p, 0, "")
          /\ UNCHANGED W
Next == \E p \in Tops : Add(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == SeqSet(adds) = Tops
Linked == Reachable(Uses(st), R)
ById(q) == [i \in 1..Len(q) |-> <<q[i].f, q[i].n>>]
RECURSIVE SortByLine(_)
SortByLine(q) == IF q = <<>> THEN <<>>
                 ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i].l < q[j].l \/ (q[i].l = q[j].l /\ i <= j)
                      IN <<q[m]>> \o SortByLine(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
View == LET all == Placed(st) IN SortByLine(SelectSeq(all, LAMBDA x : x.f \in Linked))
HasR == R \in SeqSet(adds)

Ordered == HasR => ById(View) = ReadingOrder(W, adds, R)
Increasing == HasR => \A i \in 1..(Len(View) - 1) : View[i].l < View[i + 1].l
ParsedOnce == \A p \in SeqSet(st.parsed) : OnceOnly(p) =>
                 Cardinality({i \in 1..Len(st.items) : st.items[i].f = p}) = Len(Body(W, p))
InFile == \A i \in 1..Len(st.items) : st.items[i].l >= st.items[i].n
EverythingAdded == <>Done
Emit == IF Done THEN PrintT("CASE " \o ToJson([files |-> W, adds |-> adds])) ELSE TRUE
=============================================================================
