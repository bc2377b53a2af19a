----------------------------- MODULE Gen_Append -----------------------------
(* Pairs of recipe and bbappend names over a small alphabet; on the way the  *)
(* matching itself is checked against its inductive definition.              *)
EXTENDS Store, Json
CONSTANT MaxLen
VARIABLES rec, app
gvars == <<rec, app>>
RecChars == {"a", "_", "1", "."}
AppChars == RecChars \cup {"%", "+"}

\* second, inductive definition of the matching
RECURSIVE Match2(_, _)
Match2(pat, s) ==
  IF pat = "" THEN s = ""
  ELSE IF Ch(pat, 1) = "%" THEN Match2(From(pat, 2), s) \/ (IF s = "" THEN FALSE ELSE Match2(pat, From(s, 2)))
  ELSE IF s = "" THEN FALSE
  ELSE Ch(pat, 1) = Ch(s, 1) /\ Match2(From(pat, 2), From(s, 2))

GenInit == rec = "a" /\ app = ""
GenNext == \/ /\ Len(rec) < MaxLen /\ app = ""
              /\ \E ch \in RecChars : rec' = rec \o ch
              /\ UNCHANGED app
           \/ /\ Len(app) < MaxLen
              /\ \E ch \in AppChars : app' = app \o ch
              /\ UNCHANGED rec
Agree == NameMatches(app, rec) = Match2(app, rec)
\* all matching pairs, and pairs that differ from a matching one in one character
Emit == IF app = "" THEN TRUE
        ELSE IF Match2(app, rec) \/ Len(app) = Len(rec)
             THEN PrintT("CASE " \o ToJson([rec |-> rec, app |-> app]))
             ELSE TRUE
=============================================================================
