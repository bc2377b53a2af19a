------------------------------- MODULE Inline -------------------------------
(* Values with inline python. A value is a sequence of segments:             *)
(*   lit    [t]            plain text                                        *)
(*   call   [f, args, sep, o, c] a helper with known meaning; arg = [t, q]   *)
(*          (q: the quote), o and c blanks within the parentheses            *)
(*   getvar [x, q, more]   d.getVar                                          *)
(*   unk    [t]            any other code with balanced braces               *)
EXTENDS Text

Mark == "!!!inlineblock!!!"
Esc == "^["
Seen(text) == Replace(Replace(text, "\\\n", Esc), "\n", "")

Helpers == {"bb.utils.contains", "bb.utils.contains_any", "bb.utils.filter", "oe.utils.conditional", "oe.utils.ifelse",
            "oe.utils.any_distro_features", "oe.utils.all_distro_features", "oe.utils.both_contain", "oe.utils.vartrue",
            "oe.utils.less_or_equal", "oe.utils.version_less_or_equal"}
Features == {"oe.utils.any_distro_features", "oe.utils.all_distro_features"}
\* the position of the argument used if true, and if false (0: there is none)
TruePos(f) == CASE f = "bb.utils.filter" -> 1
                [] f \in {"oe.utils.ifelse", "oe.utils.vartrue"} -> 2
                [] OTHER -> 3
FalsePos(f) == CASE f \in {"bb.utils.filter", "oe.utils.both_contain"} -> 0
                 [] f \in {"oe.utils.ifelse", "oe.utils.vartrue"} -> 3
                 [] OTHER -> 4
\* the code is evaluated with its continued lines joined
Joined(t) == Replace(t, "\\\n", "")
Result(s, neg) ==
  LET p == IF neg THEN FalsePos(s.f) ELSE TruePos(s.f)
  IN IF p = 0 THEN ""
     ELSE IF p > Len(s.args) THEN (IF neg THEN "" ELSE "1")
     ELSE Joined(s.args[p].t)

RenderArg(a) == a.q \o a.t \o a.q
RenderSeg(s) ==
  CASE s.k = "lit" -> s.t
    [] s.k = "call" -> "${@" \o s.f \o "(" \o s.o \o Join([i \in 1..Len(s.args) |-> RenderArg(s.args[i])], s.sep) \o s.c \o ")}"
    [] s.k = "getvar" -> "${@d.getVar(" \o s.q \o s.x \o s.q \o s.more \o ")}"
    [] s.k = "unk" -> "${@" \o s.t \o "}"
RenderSegs(q) == Concat([i \in 1..Len(q) |-> RenderSeg(q[i])])

Replaced(s, neg) ==
  CASE s.k = "lit" -> s.t
    [] s.k = "call" -> Result(s, neg)
    [] s.k = "getvar" -> "${" \o s.x \o "}"
    [] s.k = "unk" -> Mark
Blocks(q, neg) == LET b == SelectSeq(q, LAMBDA s : s.k # "lit")
                  IN [i \in 1..Len(b) |-> <<RenderSeg(b[i]), Replaced(b[i], neg)>>]
ValueOf(q, neg) == Concat([i \in 1..Len(q) |-> Replaced(q[i], neg)])
\* what an expansion starts from
RestoredOf(q, neg) == Concat([i \in 1..Len(q) |-> IF q[i].k = "unk" THEN RenderSeg(q[i]) ELSE Replaced(q[i], neg)])
\* env: sequence of <<name, value>>
RECURSIVE Subst(_, _)
Subst(t, env) == IF env = <<>> THEN t
                 ELSE Subst(Replace(t, "${" \o Head(env)[1] \o "}", Head(env)[2]), Tail(env))
ExpandedOf(q, neg, env) == Concat([i \in 1..Len(q) |->
                             IF q[i].k = "unk" THEN RenderSeg(q[i]) ELSE Subst(Replaced(q[i], neg), env)])

---------------------------------------------------------------------------
(* The machine working on the text: take the first block up to its closing   *)
(* brace, replace it.                                                        *)
RECURSIVE Closing(_, _, _)
Closing(t, i, depth) == IF i > Len(t) THEN Len(t)
                        ELSE IF Ch(t, i) = "}" /\ depth = 0 THEN i
                        ELSE Closing(t, i + 1, depth + (IF Ch(t, i) = "{" THEN 1 ELSE 0) - (IF Ch(t, i) = "}" THEN 1 ELSE 0))
FirstBlock(t) == LET i == Find(t, "${@") IN SubSeq(t, i, Closing(t, i + 3, 0))
ReplaceFirst(t, p, r) == LET i == Find(t, p) IN IF i = 0 THEN t ELSE Upto(t, i - 1) \o r \o From(t, i + Len(p))
RECURSIVE RestoreAll(_, _)
RestoreAll(t, blocks) == IF blocks = <<>> THEN t
                         ELSE RestoreAll(IF Head(blocks)[2] = Mark THEN ReplaceFirst(t, Mark, Head(blocks)[1]) ELSE t, Tail(blocks))
=============================================================================
