---------------------------- MODULE MC_Constants ----------------------------
(* All histories of the three operations on a small layout.                  *)
EXTENDS Constants, TLC, Json
CONSTANTS MaxOps, Emits
VARIABLES db, hist
vars == <<db, hist>>
Lists == {List(<<>>), List(<<"x">>), List(<<"y", "x">>), List(<<"x", "z", "x">>)}
\* {"f": {"k": list, "o": list}, "m": {"p": text, "q": text}, "n": list}
D1(k, v) == Dict({<<k, v>>})
Args == {<<o, D1("f", D1(k, v))>> : o \in {"add", "remove", "override"}, k \in {"k", "o"}, v \in Lists}
        \cup {<<o, D1("n", v)>> : o \in {"add", "remove", "override"}, v \in Lists}
        \cup {<<"override", D1("m", D1(k, Leaf("u")))>> : k \in {"p", "q"}}
        \cup {<<"add", D1("m", D1("r", Leaf("w")))>>, <<"remove", D1("m", List(<<"p", "zz">>))>>,
              <<"add", Dict({<<"f", D1("k", List(<<"y">>))>>, <<"g", D1("h", List(<<"x">>))>>})>>}
InitDb == Dict({<<"f", Dict({<<"k", List(<<"x", "y">>)>>, <<"o", List(<<>>)>>})>>, <<"m", Dict({<<"p", Leaf("1")>>})>>})
Init == db = InitDb /\ hist = <<>>
\* no concatenation of texts
Sane(a, op, b) == op = "add" => \A p \in Paths(b) : Get(b, p).t = "s" => Get(a, p) = None
Next == /\ Len(hist) < MaxOps
        /\ \E x \in Args : /\ Sane(db, x[1], x[2]) /\ db' = Do(db, x[1], x[2])
                           /\ hist' = Append(hist, [op |-> x[1], arg |-> x[2]])
Spec == Init /\ [][Next]_vars
L == hist'[Len(hist')]
\* entries not addressed keep their values
Frame == [][\A p \in Paths(db) : p \notin Paths(L.arg) /\ ~(L.op = "remove" /\ Len(p) > 1 /\ SubSeq(p, 1, Len(p) - 1) \in Paths(L.arg))
              => Get(db', p) = Get(db, p)]_vars
Effect == [][\A p \in Paths(L.arg) :
   LET v == Get(L.arg, p) o == Get(db, p) n == Get(db', p) IN
     CASE L.op = "override" -> n = v
       [] L.op = "add" -> IF v.t = "l" THEN n = List(o.l \o v.l) ELSE n = v
       [] L.op = "remove" -> IF o.t = "d" /\ o # None THEN KeysOf(n) = KeysOf(o) \ SeqSet(v.l)
                             ELSE SeqSet(n.l) \cap SeqSet(v.l) = {} /\ SeqSet(n.l) = SeqSet(o.l) \ SeqSet(v.l)]_vars
Below == \A p \in Paths(db) : Get(db, p \o <<"x">>) = None
RECURSIVE ToJ(_)
ToJ(a) == [t |-> a.t, d |-> {<<e[1], ToJ(e[2])>> : e \in a.d}, l |-> a.l, s |-> a.s]
Emit == IF Emits /\ Len(hist) = MaxOps THEN PrintT("CASE " \o ToJson([init |-> ToJ(InitDb), ops |-> [i \in 1..Len(hist) |-> [op |-> hist[i].op, arg |-> ToJ(hist[i].arg)]]])) ELSE TRUE
=============================================================================
