----------------------------- MODULE MC_Segment -----------------------------
(* Exhaustive exploration of the segmentation machine over all files of up   *)
(* to MaxLines lines from an alphabet that contains every kind of line.      *)
EXTENDS Segment
CONSTANT MaxLines
VARIABLES m, text
vars == <<m, text>>

AllLines == {"A = \"1\"\n", "B = \"a \\\n", "  b\"\n", "f() {\n", "  x {\n", "  }\n", "}\n",
             "# c\n", "# c() {\n", "C = \"h() {\"\n", "def f(d):\n", "_D = \"1\"\n", "    y\n", "\n", "A = \"1\"", "B = \"a \\", "g () {"}
\* only the last line may lack its line break
Proper(f) == \A i \in 1..Len(f) : i < Len(f) => EndsWith(f[i], "\n")

Init == \E n \in 0..MaxLines : \E f \in [1..n -> AllLines] :
          Proper(f) /\ m = Start(f) /\ text = Concat(f)
DoOpen == CanOpen(m) /\ m' = Open(m) /\ UNCHANGED text
DoExtend == CanExtend(m) /\ m' = Extend(m) /\ UNCHANGED text
DoFinish == CanFinish(m) /\ m' = Finish(m) /\ UNCHANGED text
Next == DoOpen \/ DoExtend \/ DoFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == m.mode = "idle" /\ m.rest = <<>>
Texts(q) == [i \in 1..Len(q) |-> q[i].t]
\* nothing is lost or invented at any time
Conservation == Concat(Texts(m.out)) \o m.cur \o Concat(m.rest) = text
NoEmptyBlock == \A i \in 1..Len(m.out) : m.out[i].t # ""
IdleIsEmpty == m.mode = "idle" => m.cur = "" /\ m.depth = 0
\* a comment block consists of comment lines only, a function of one header
Shapes == \A i \in 1..Len(m.out) :
   LET L == LinesOf(m.out[i].t)
   IN /\ m.out[i].k = "comment" => \A j \in 1..Len(L) : IsComment(L[j])
      /\ m.out[i].k = "line" => Len(L) = 1
      /\ m.out[i].k = "def" => \A j \in 2..Len(L) : ~EndsDef(L[j])
      /\ m.out[i].k = "cont" => \A j \in 1..(Len(L) - 1) : IsContinued(L[j])
\* adjacent comment lines are never split
CommentsMaximal == \A i \in 1..(Len(m.out) - 1) : ~(m.out[i].k = "comment" /\ m.out[i + 1].k = "comment")
FunctionOfText == Done => Texts(m.out) = BlockTexts(text)
Terminates == <>Done
=============================================================================
