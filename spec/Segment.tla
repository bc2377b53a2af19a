------------------------------ MODULE Segment -------------------------------
(* How a file is cut into statement blocks.                                  *)
(*                                                                           *)
(* The machine consumes the lines of a file one by one. Idle means that the  *)
(* next line opens a new block; the other modes say what kind of block is    *)
(* open. Comment and def blocks end *before* a line (which then opens the    *)
(* next block itself), continuations and functions end *with* a line.        *)
EXTENDS Text

\* A backslash at the end of the line, or followed by nothing but blanks
IsContinued(ln) == /\ EndsWith(ln, "\n")
                   /\ EndsWith(RStrip(ln, White), "\\")
\* python and fakeroot, a name (which an anonymous python function lacks),
\* '()' and '{' with blanks in between. Text of that shape in a value or a
\* comment does not open a function.
NameChars == Alnum \cup {"_", ".", "-", "+", ":", "$", "{", "}"}
IsFuncHead(ln) ==
  LET i == Find(ln, "(")
      j == Skip(ln, White, i + 1)
      k == Skip(ln, White, j + 1)
      w == Words(Upto(ln, i - 1), White)
      n == Len(w)
  IN /\ i > 0 /\ At(ln, j, ")") /\ At(ln, k, "{")
     /\ \A x \in 1..n : IF x < n THEN w[x] \in {"python", "fakeroot"} ELSE Chars(w[x]) \subseteq NameChars
IsComment(ln) == StartsWith(ln, "#")
IsDef(ln) == LET t == LStrip(ln, White) IN StartsWith(t, "def ") \/ StartsWith(t, "def\t")
\* a line that ends a def block
EndsDef(ln) == ln # "" /\ Ch(ln, 1) \in Alnum \cup {"#", "_", "$"}

Opens(ln) == IF IsContinued(ln) THEN "cont"
             ELSE IF IsFuncHead(ln) THEN "func"
             ELSE IF IsComment(ln) THEN "comment"
             ELSE IF IsDef(ln) THEN "def"
             ELSE "line"

Braces(ln) == [o |-> CountIn(ln, {"{"}), c |-> CountIn(ln, {"}"})]

---------------------------------------------------------------------------
(* The machine as a transition function over                                 *)
(*   [rest: lines not consumed, mode, depth: open braces of a function,      *)
(*    cur: text of the open block, out: finished blocks <<text, kind>>]      *)
Start(lines) == [rest |-> lines, mode |-> "idle", depth |-> 0, cur |-> "", kind |-> "", out |-> <<>>]

Close(m) == [m EXCEPT !.mode = "idle", !.cur = "", !.kind = "", !.depth = 0,
                      !.out = Append(@, [t |-> m.cur, k |-> m.kind])]

CanOpen(m) == m.mode = "idle" /\ m.rest # <<>>
Open(m) ==
  LET ln == Head(m.rest)
      n == [m EXCEPT !.rest = Tail(@), !.cur = ln, !.kind = Opens(ln), !.mode = Opens(ln)]
  IN IF Opens(ln) = "line" THEN Close(n) ELSE n

CanExtend(m) == m.mode # "idle" /\ m.rest # <<>>
Extend(m) ==
  LET ln == Head(m.rest)
      n == [m EXCEPT !.rest = Tail(@), !.cur = @ \o ln]
  IN CASE m.mode = "cont" -> IF IsContinued(ln) THEN n ELSE Close(n)
       [] m.mode = "func" ->
            LET b == Braces(ln)
            IN IF m.depth + b.o < b.c THEN Close(n)
               ELSE [n EXCEPT !.depth = (m.depth + b.o) - b.c]
       [] m.mode = "comment" -> IF IsComment(ln) THEN n ELSE Close(m)
       [] m.mode = "def" -> IF EndsDef(ln) THEN Close(m) ELSE n

CanFinish(m) == m.mode # "idle" /\ m.rest = <<>>
Finish(m) == Close(m)

RECURSIVE RunMachine(_)
RunMachine(m) == IF CanOpen(m) THEN RunMachine(Open(m))
                 ELSE IF CanExtend(m) THEN RunMachine(Extend(m))
                 ELSE IF CanFinish(m) THEN RunMachine(Finish(m))
                 ELSE m

Blocks(text) == RunMachine(Start(LinesOf(text))).out
BlockTexts(text) == LET b == Blocks(text) IN [i \in 1..Len(b) |-> b[i].t]

---------------------------------------------------------------------------
(* What has to hold of any division of a text into consecutive blocks *)
Lossless(parts, text) == Concat(parts) = text
LineOf(parts, i) == 1 + Breaks(Concat(SubSeq(parts, 1, i - 1)))
Numbered(parts, lines) == \A i \in 1..Len(parts) : lines[i] = LineOf(parts, i)
=============================================================================
