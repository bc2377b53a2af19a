------------------------------ MODULE Packages -------------------------------
(* What a recipe produces and what it is: names of packages, of resources,   *)
(* dynamic packages; images and packagegroups.                               *)
(* World: files [p, st]; statements [k, ...]:                                *)
(*   var [b (name without overrides), op, q (tokens of the value), def (plain *)
(*        definition that references see)]                                   *)
(*   inh [w: names]                                                          *)
EXTENDS Expand
U == INSTANCE SrcUri

StmtsOf(files, F) == FlattenSeqs([i \in 1..Len(files) |-> IF files[i].p \in F THEN files[i].st ELSE <<>>])
VarsNamed(stmts, names) == SelectSeq(stmts, LAMBDA s : s.k = "var" /\ s.b \in names)
EnvFor(files, F, path, base, spare) ==
  LET d == SelectSeq(StmtsOf(files, F), LAMBDA s : s.k = "var" /\ s.def)
  IN [defs |-> [i \in 1..Len(d) |-> [name |-> d[i].b, val |-> d[i].q]], base |-> base, spare |-> spare, path |-> path]
Sep == {" ", "\t", "\n"}
ItemsIn(env, vs) == UNION {SeqSet(Words(Full(env, vs[i].q), Sep)) : i \in 1..Len(vs)}

Standard(n) == {n} \cup {n \o "-" \o x : x \in {"ptest", "src", "dbg", "staticdev", "dev", "doc", "locale"}}
PNref == "${PN}"
ValidNames(files, F, path, base, strip) ==
  LET items == ItemsIn(EnvFor(files, F, path, base, {"PN"}), VarsNamed(StmtsOf(files, F), {"PACKAGES", "PACKAGE_BEFORE_PN"}))
      n == RecipeName(path)
  IN Standard(n) \cup Standard(PNref)
     \cup (IF strip THEN {Replace(x, PNref, "") : x \in items}
           ELSE items \cup {Replace(x, PNref, n) : x \in items})

Resources(files, F, path, mirrors) ==
  LET vs == VarsNamed(StmtsOf(files, F), {"SRC_URI"})
      ws == UNION {SeqSet(Words(RenderToks(vs[i].q), Sep)) : i \in 1..Len(vs)}
      opts == UNION {U!Decompose(w, mirrors).options : w \in ws}
  IN {RecipeName(path)} \cup {Replace(o[2], PNref, RecipeName(path)) : o \in {x \in opts : x[1] = "name"}}

Dynamic(files, F, path, base) == ItemsIn(EnvFor(files, F, path, base, {}), VarsNamed(StmtsOf(files, F), {"PACKAGES_DYNAMIC"}))

\* regular expressions of characters, ".", classes of characters, * + ? and |, at the start of a text
AtomLen(p) == IF Ch(p, 1) = "[" THEN FindFrom(p, "]", 2) ELSE 1
ClassHas(cl, c) == (\E i \in 1..Len(cl) : Ch(cl, i) = c /\ ~(c = "-" /\ 1 < i /\ i < Len(cl))) \/ \E i \in 2..(Len(cl) - 1) : Ch(cl, i) = "-" /\ Code(Ch(cl, i - 1)) <= Code(c) /\ Code(c) <= Code(Ch(cl, i + 1))
AtomFits(a, c) == IF a = "." THEN c # "\n" ELSE IF Ch(a, 1) = "[" THEN ClassHas(SubSeq(a, 2, Len(a) - 1), c) ELSE a = c
RECURSIVE Fits(_, _)
Fits(p, s) ==
  IF p = "" THEN TRUE
  ELSE IF p = "$" THEN s = ""
  ELSE LET a == Upto(p, AtomLen(p))
           q == IF Len(p) > Len(a) THEN Ch(p, Len(a) + 1) ELSE ""
           rest == From(p, Len(a) + 2)
           one == s # "" /\ AtomFits(a, Ch(s, 1))
       IN IF q = "*" THEN Fits(rest, s) \/ (one /\ Fits(p, From(s, 2)))
          ELSE IF q = "+" THEN one /\ Fits(a \o "*" \o rest, From(s, 2))
          ELSE IF q = "?" THEN Fits(rest, s) \/ (one /\ Fits(rest, From(s, 2)))
          ELSE one /\ Fits(From(p, Len(a) + 1), From(s, 2))
\* the patterns this module gives a meaning to
RECURSIVE PieceOk(_)
PieceOk(p) ==
  IF p \in {"", "$"} THEN TRUE
  ELSE IF Ch(p, 1) \in Chars("*+?^$(){}\\]") THEN FALSE
  ELSE IF Ch(p, 1) = "[" /\ FindFrom(p, "]", 2) \in 0..2 THEN FALSE
  ELSE LET l == AtomLen(p)
       IN IF Len(p) > l /\ Ch(p, l + 1) \in {"*", "+", "?"} THEN PieceOk(From(p, l + 2)) ELSE PieceOk(From(p, l + 1))
\* nothing to repeat: no expression at all, and matches nothing
Invalid(p) == StartsWith(p, "*")
PatternOk(p) == Invalid(p) \/ \A x \in SeqSet(SplitAt(p, "|")) : PieceOk(IF StartsWith(x, "^") THEN From(x, 2) ELSE x)
NameOk(s) == Chars(s) \cap {" ", "\t", "\n", "$", "{", "}"} = {}
StartFits(p, s) == ~Invalid(p) /\ \E x \in SeqSet(SplitAt(p, "|")) : Fits(IF StartsWith(x, "^") THEN From(x, 2) ELSE x, s)

NamesAny(stmts, classes) == \E i \in 1..Len(stmts) : stmts[i].k = "inh" /\ SeqSet(stmts[i].w) \cap classes # {}
SetsAny(stmts, names) == \E i \in 1..Len(stmts) : stmts[i].k = "var" /\ stmts[i].b \in names
IsImage(files, F, classes, variables) == NamesAny(StmtsOf(files, F), classes) \/ SetsAny(StmtsOf(files, F), variables)
IsPackageGroup(files, F) == NamesAny(StmtsOf(files, F), {"packagegroup"})
=============================================================================
