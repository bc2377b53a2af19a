------------------------------- MODULE Lookup --------------------------------
(* Which file a name in an include, require or inherit statement stands for; *)
(* the layer a file belongs to; the machines and distros of layers.          *)
(* A tree is a set of paths of files.                                        *)
EXTENDS Names

\* path without "." and ".."
RECURSIVE NormPieces(_, _)
NormPieces(q, acc) ==
  IF q = <<>> THEN acc
  ELSE NormPieces(Tail(q), IF Head(q) \in {"", "."} THEN acc
                           ELSE IF Head(q) = ".." THEN SubSeq(acc, 1, IF acc = <<>> THEN 0 ELSE Len(acc) - 1)
                           ELSE Append(acc, Head(q)))
Norm(p) == IF ~Contains(p, "/.") /\ ~Contains(p, "//") THEN p
           ELSE LET q == TLCEval(NormPieces(TLCEval(SplitAt(p, "/")), <<>>)) IN Concat([i \in 1..Len(q) |-> "/" \o q[i]])
PathJoin(d, n) == Norm(IF StartsWith(n, "/") THEN n ELSE d \o "/" \o n)

\* the nearest directory at or above with conf/layer.conf
RECURSIVE RootAt(_, _)
RootAt(tree, d) == IF (d \o "/conf/layer.conf") \in tree THEN d
                   ELSE IF d = "" THEN "" ELSE RootAt(tree, NDir(d))
LayerOf(tree, f) == RootAt(tree, NDir(f))

FindName(tree, n, d) ==
  LET a == TLCEval(PathJoin(d, n))
  IN IF a \in tree THEN a
     ELSE LET r == TLCEval(RootAt(tree, d))
              b == TLCEval(PathJoin(r, n))
          IN IF r # "" /\ b \in tree THEN b ELSE ""

WithSuffix(c) == IF EndsWith(c, ".bbclass") THEN c ELSE c \o ".bbclass"
Locations(kw) == IF kw = "INHERIT" THEN <<"classes", "classes-global">> ELSE <<"classes", "classes-recipe", "classes-global">>
RECURSIVE FindIn(_, _, _, _)
FindIn(tree, locs, c, d) == IF locs = <<>> THEN ""
                            ELSE LET f == TLCEval(FindName(tree, Head(locs) \o "/" \o c, d))
                                 IN IF f # "" THEN f ELSE FindIn(tree, Tail(locs), c, d)
FindClass(tree, kw, c, d) == FindIn(tree, Locations(kw), WithSuffix(c), d)

\* names of configurations shipped by a layer
ConfNames(tree, root, kind) ==
  IF root = "" THEN {}
  ELSE {NStem(f) : f \in {x \in tree : NDir(x) = root \o "/conf/" \o kind /\ EndsWith(x, ".conf") /\ ~StartsWith(NBase(x), ".")}}
=============================================================================
