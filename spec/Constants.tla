------------------------------ MODULE Constants ------------------------------
(* The constants database: a tree of dictionaries, lists of texts and texts. *)
(* tree: [t |-> "d"/"l"/"s", d |-> set of <<key, tree>>, l |-> sequence, s |-> text] *)
EXTENDS Text
Dict(S) == [t |-> "d", d |-> S, l |-> <<>>, s |-> ""]
List(q) == [t |-> "l", d |-> {}, l |-> q, s |-> ""]
Leaf(x) == [t |-> "s", d |-> {}, l |-> <<>>, s |-> x]
None == Dict({})
KeysOf(a) == {e[1] : e \in a.d}
Sub(a, k) == (CHOOSE e \in a.d : e[1] = k)[2]
HasKey(a, k) == a.t = "d" /\ k \in KeysOf(a)
With(a, k, v) == Dict({e \in a.d : e[1] # k} \cup {<<k, v>>})
Without(a, K) == Dict({e \in a.d : e[1] \notin K})

RECURSIVE Get(_, _)
Get(a, p) == IF p = <<>> THEN a ELSE IF HasKey(a, Head(p)) THEN Get(Sub(a, Head(p)), Tail(p)) ELSE None

RECURSIVE Add(_, _)
Add(a, b) == Dict({<<k, IF k \notin KeysOf(b) THEN Sub(a, k)
                        ELSE IF k \notin KeysOf(a) THEN Sub(b, k)
                        ELSE IF Sub(b, k).t = "d" THEN Add(Sub(a, k), Sub(b, k))
                        ELSE IF Sub(b, k).t = "l" THEN List(Sub(a, k).l \o Sub(b, k).l)
                        ELSE Leaf(Sub(a, k).s \o Sub(b, k).s)>> : k \in KeysOf(a) \cup KeysOf(b)})
RECURSIVE Remove(_, _)
Remove(a, b) == Dict({<<k, IF k \notin KeysOf(b) THEN Sub(a, k)
                           ELSE IF Sub(b, k).t = "d" THEN Remove(Sub(a, k), Sub(b, k))
                           ELSE IF Sub(a, k).t = "d" THEN Without(Sub(a, k), SeqSet(Sub(b, k).l))
                           ELSE List(SelectSeq(Sub(a, k).l, LAMBDA x : x \notin SeqSet(Sub(b, k).l)))>>
                       : k \in {x \in KeysOf(a) : ~(x \in KeysOf(b) /\ Sub(b, x).t # "d" /\ Sub(a, x).t = "s")}})
RECURSIVE Override(_, _)
Override(a, b) == Dict({<<k, IF k \notin KeysOf(b) THEN Sub(a, k)
                             ELSE IF k \notin KeysOf(a) THEN Sub(b, k)
                             ELSE IF Sub(b, k).t = "d" THEN Override(Sub(a, k), Sub(b, k))
                             ELSE Sub(b, k)>> : k \in KeysOf(a) \cup KeysOf(b)})
Do(a, op, b) == CASE op = "add" -> Add(a, b) [] op = "remove" -> Remove(a, b) [] op = "override" -> Override(a, b)

\* dictionaries of b only where a has dictionaries (or nothing): the same key layout
RECURSIVE Fits(_, _)
Fits(a, b) == \A k \in KeysOf(b) : k \in KeysOf(a) => IF Sub(b, k).t = "d" THEN Sub(a, k).t = "d" /\ Fits(Sub(a, k), Sub(b, k))
                                                       ELSE Sub(a, k).t = Sub(b, k).t
\* all paths leading to entries that are no dictionaries
RECURSIVE Paths(_)
Paths(a) == IF a.t # "d" THEN {<<>>} ELSE UNION {{<<k>> \o p : p \in Paths(Sub(a, k))} : k \in KeysOf(a)}
=============================================================================
