------------------------------ MODULE MC_Lookup ------------------------------
(* A tree of nested layers grows file by file, in any order; every state is  *)
(* asked everything.                                                         *)
EXTENDS Lookup, Json
CONSTANTS Mode, Emits
VARIABLE tree

Confs == {d \o "/conf/layer.conf" : d \in {"/R/o", "/R/o/l", "/R/o/l/r/m"}}
Dirs == {"/R/o", "/R/o/l", "/R/o/l/r", "/R/o/l/r/m", "/R/o/l/r/m/x", "/R/q"}
Places == {d \o "/inc/a.inc" : d \in Dirs \ {"/R/q"}}
ClassPlaces == {d \o l \o "/k.bbclass" : d \in {"/R/o/l", "/R/o/l/r"}, l \in {"/classes", "/classes-recipe", "/classes-global"}}
Universe == IF Mode = "inc" THEN Confs \cup Places ELSE {"/R/o/l/conf/layer.conf"} \cup ClassPlaces
Init == tree = {}
Next == \E f \in Universe \ tree : tree' = tree \cup {f}
Spec == Init /\ [][Next]_tree

Asked == {"inc/a.inc", "../inc/a.inc", "/R/o/l/inc/a.inc", "inc/./a.inc"}
Kws == {"inherit", "INHERIT"}
RECURSIVE Above(_)
Above(d) == IF d = "" THEN {""} ELSE {d} \cup Above(NDir(d))

Found == \A d \in Dirs, n \in Asked : FindName(tree, n, d) \in tree \cup {""}
LocalFirst == \A d \in Dirs, n \in Asked : PathJoin(d, n) \in tree => FindName(tree, n, d) = PathJoin(d, n)
OwnLayer == \A d \in Dirs : LET f == FindName(tree, "inc/a.inc", d)
                            IN f \in {"", d \o "/inc/a.inc", RootAt(tree, d) \o "/inc/a.inc"}
Nearest == \A d \in Dirs : LET r == RootAt(tree, d)
                           IN /\ r # "" => r \in Above(d) /\ (r \o "/conf/layer.conf") \in tree
                              /\ \A x \in Above(d) : (x \o "/conf/layer.conf") \in tree => (r # "" /\ Len(x) <= Len(r))
ClassKinds == \A d \in {"/R/o/l", "/R/o/l/r"} :
   LET a == FindClass(tree, "inherit", "k", d) b == FindClass(tree, "INHERIT", "k", d)
   IN /\ Contains(a, "/classes/") <=> Contains(b, "/classes/")
      /\ ~Contains(b, "/classes-recipe/") /\ (a = "" => b = "") /\ ((~Contains(a, "/classes-recipe/")) => a = b)
      /\ FindClass(tree, "inherit", "k.bbclass", d) = a
\* a file elsewhere changes nothing
Elsewhere == [][LET f == CHOOSE x \in tree' : x \notin tree
                IN \A d \in Dirs, n \in Asked : (f \notin Confs /\ f \notin {PathJoin(d, n), PathJoin(RootAt(tree, d), n)}) => FindName(tree', n, d) = FindName(tree, n, d)]_tree
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Emit == IF Emits THEN PrintT("CASE " \o ToJson([tree |-> SeqOf(tree), dirs |-> SeqOf(Dirs), mode |-> Mode])) ELSE TRUE
=============================================================================
