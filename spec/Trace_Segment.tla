---------------------------- MODULE Trace_Segment ----------------------------
(* case: text; obs: items <<raw, line, kind>> of the file *)
EXTENDS TraceBase, Segment

Raws(q) == [i \in 1..Len(q) |-> q[i][1]]
Nums(q) == [i \in 1..Len(q) |-> q[i][2]]

\* C01: any text
C01Verdict(case) ==
  LET o == case.obs IN
  IF o.error # "" THEN {"no-exception"}
  ELSE LET t == Normalise(case.text) IN
       Fail(Lossless(Raws(o.items), t), "lossless")
       \cup Fail(Numbered(Raws(o.items), Nums(o.items)), "line-numbers")
       \cup Fail(Raws(o.added) = Raws(o.items), "every-item-stored")
       \cup Fail(\A i \in 1..Len(o.items) : o.items[i][1] # "", "no-empty-item")

\* C02: well-formed blocks, which the generator states in case.blocks; the
\* specification's machine has to agree with it (machinery) and the code with
\* the machine
C02Verdict(case) ==
  LET o == case.obs
      b == BlockTexts(Normalise(case.text))
  IN IF o.error # "" THEN {"no-exception"}
     ELSE IF "blocks" \in DOMAIN case /\ case.blocks # b
          THEN {"MACHINERY generator and specification disagree"}
     ELSE Fail(Raws(o.items) = b, "block-boundaries")
          \cup Fail(Len(o.items) = Len(b) => Numbered(b, Nums(o.items)), "line-numbers")
=============================================================================
