----------------------------- MODULE Gen_Segment -----------------------------
(* Every file of up to MaxLines lines of the alphabet, as scenarios *)
EXTENDS MC_Segment, Json
VARIABLE f
GenInit == f = <<>> /\ m = Start(<<>>) /\ text = ""
GenNext == /\ Len(f) < MaxLines
           /\ IF f = <<>> THEN TRUE ELSE EndsWith(f[Len(f)], "\n")
           /\ \E ln \in AllLines : f' = Append(f, ln)
           /\ UNCHANGED vars
Emit == PrintT("CASE " \o ToJson([text |-> Concat(f)]))
=============================================================================
