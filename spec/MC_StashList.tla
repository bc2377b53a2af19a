---------------------------- MODULE MC_StashList ----------------------------
EXTENDS StashList, TLC, Json
CONSTANTS NItems, MaxOps, Emits
VARIABLES ls, hist, last
vars == <<ls, hist, last>>
Kinds == [i \in 1..NItems |-> i % 2]
O(op, l, to, arg, i, j, k) == [op |-> op, l |-> l, to |-> to, arg |-> arg, i |-> i, j |-> j, k |-> k]
No == [k |-> "seq", v |-> <<>>]
One(x) == [k |-> "one", v |-> <<x>>]
Args == {One(1), [k |-> "seq", v |-> <<2, 1>>], [k |-> "ref", v |-> <<1>>], [k |-> "ref", v |-> <<2>>]}
Ops == {O(op, l, 2, a, 0, 0, 1) : op \in {"append", "remove", "add"}, l \in {1, 2}, a \in Args}
       \cup {O(op, l, 2, a, 0, 0, 1) : op \in {"extend", "iadd", "radd"}, l \in {1, 2}, a \in Args \ {One(1)}}
       \cup {O("insert", 1, 2, One(2), i, 0, 1) : i \in {0, -1, 1, 7}}
       \cup {O("slice", 1, 2, No, s[1], s[2], s[3]) : s \in {<<0, 1, 1>>, <<1, Nil, 1>>, <<Nil, Nil, -1>>, <<Nil, -1, 1>>, <<Nil, Nil, 2>>, <<-2, 0, -1>>}}
       \cup {O("copy", l, 3 - l, No, 0, 0, 1) : l \in {1, 2}}
       \cup {O("set", 2, 2, One(1), i, 0, 1) : i \in {0, -1, 5}}
       \cup {O(op, l, 2, One(1), i, 0, 1) : op \in {"index", "iter", "len", "in"}, l \in {2}, i \in {0, -1}}
       \cup {O("reduce", l, 2, No, 1, 0, 1) : l \in {1, 2}} \cup {O("get", 1, 1, No, 0, 0, 1)}
\* plus of lists with one item only makes no sense
Sane(o) == ~(o.op = "add" /\ o.arg.k = "one")
Init == ls = <<Asc(1..NItems), <<>>>> /\ hist = <<>> /\ last = [r |-> <<>>, e |-> ""]
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : /\ Sane(o)
                          /\ LET d == Do(ls, o, Kinds) IN Len(d.ls[1]) < 9 /\ Len(d.ls[2]) < 9 /\ ls' = d.ls /\ last' = [r |-> d.r, e |-> d.e]
                          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
O1 == hist'[Len(hist')]
\* only the list operated on (or the one receiving the result) changes
Frame == [][\A l \in 1..2 : (l # O1.l /\ l # O1.to) => ls'[l] = ls[l]]_vars
Pure == [][O1.op \in {"index", "iter", "len", "in"} => ls' = ls]_vars
Operands == [][(O1.op \in {"append", "extend", "iadd", "remove"} /\ O1.arg.k = "ref" /\ O1.arg.v[1] # O1.l) => ls'[O1.arg.v[1]] = ls[O1.arg.v[1]]]_vars
Grows == [][O1.op \in {"append", "extend", "iadd"} => Len(ls'[O1.l]) = Len(ls[O1.l]) + Len(Operand(ls, O1.arg))]_vars
Gone == [][(O1.op = "remove" /\ last'.e = "") => Len(ls'[O1.l]) = Len(ls[O1.l]) - Len(Operand(ls, O1.arg))]_vars
Emit == IF Emits /\ Len(hist) = MaxOps THEN PrintT("CASE " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
