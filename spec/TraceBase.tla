------------------------------ MODULE TraceBase ------------------------------
(* Validation of observations of the real code. Every line of the file named *)
(* by the environment variable CASES is one observed execution; Verdict maps *)
(* it to the set of names of the clauses of the specification it breaks. The *)
(* verdict is computed in a step (not in Init), so TLC's workers share the   *)
(* work, and it is total: every case is reported on.                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

\* read once; a register is shared by all workers of TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))

VARIABLES caseNo, verdict
tvars == <<caseNo, verdict>>

TraceInit == caseNo \in 1..Len(TLCGet(7)) /\ verdict = {"?"}
TraceNext == verdict = {"?"} /\ verdict' = Verdict(TLCGet(7)[caseNo]) /\ UNCHANGED caseNo
\* always TRUE; reports broken clauses
Report == verdict = {} \/ verdict = {"?"} \/ PrintT("BAD " \o ToJson([i |-> caseNo, f |-> verdict]))
=============================================================================
