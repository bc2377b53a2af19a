-------------------------------- MODULE Files --------------------------------
(* Files shipped beside the users of SRC_URI                                 *)
EXTENDS Names

\* shell patterns: * ? [abc] [!abc] and characters standing for themselves
RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = "" THEN s = ""
  ELSE LET c == Ch(p, 1)
           close == FindFrom(p, "]", 3)
       IN IF c = "*" THEN Glob(From(p, 2), s) \/ (s # "" /\ Glob(p, From(s, 2)))
          ELSE IF s = "" THEN FALSE
          ELSE IF c = "?" THEN Glob(From(p, 2), From(s, 2))
          ELSE IF c = "[" /\ close > 0
               THEN LET neg == Ch(p, 2) = "!"
                        set == Chars(SubSeq(p, IF neg THEN 3 ELSE 2, close - 1))
                    IN (Ch(s, 1) \in set) # neg /\ Glob(From(p, close + 1), From(s, 2))
          ELSE c = Ch(s, 1) /\ Glob(From(p, 2), From(s, 2))
Hidden(s) == StartsWith(s, ".")
NameLike(p, s) == Glob(p, s) /\ (Hidden(s) => Hidden(p))
Beside(dir, f) == NDir(NDir(f)) = dir /\ NDir(f) # dir /\ ~Hidden(NBase(NDir(f)))

\* linked: path -> files linked to it (and itself); setters: files with SRC_URI
DirsFor(f, linked, setters) ==
  LET S == linked[f] \cap setters
  IN {NDir(p) : p \in S} \cup {NDir(p) : p \in UNION {linked[x] : x \in S}}
Found(tree, f, pattern, linked, setters) ==
  {x \in tree : (\E d \in DirsFor(f, linked, setters) : Beside(d, x)) /\ NameLike(pattern, NBase(x))}
=============================================================================
