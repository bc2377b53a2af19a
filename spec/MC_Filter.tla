------------------------------ MODULE MC_Filter ------------------------------
(* Any filters applied one after another to a list (possibly holding items   *)
(* more than once), on all small item sets.                                  *)
EXTENDS Filter, TLC, Json
CONSTANTS NItems, MaxFilters
VARIABLES items, cur, applied
vars == <<items, cur, applied>>
None == [file |-> "", nolink |-> FALSE, cls |-> <<>>, attr |-> <<>>, val |-> <<>>]
Atoms == {[None EXCEPT !.file = "r"], [None EXCEPT !.file = "r", !.nolink = TRUE], [None EXCEPT !.cls = <<"V">>], [None EXCEPT !.cls = <<"V", "I">>],
          [None EXCEPT !.attr = <<"N">>], [None EXCEPT !.attr = <<"N">>, !.val = <<"x">>], [None EXCEPT !.attr = <<"N", "M">>, !.val = <<"x", "y">>]}
Links == <<[f |-> "r", to |-> <<"r", "i">>]>>
Kinds == {[f |-> f, c |-> c, at |-> at] : f \in {"r", "i", "o"}, c \in {"V", "I"}, at \in {<<>>, <<<<"N", "x">>>>, <<<<"N", "z">>, <<"M", "y">>>>}}
All == [i \in 1..NItems |-> i] \o <<1>>
Init == /\ \E k \in [1..NItems -> Kinds], l \in [1..NItems -> {1, 2}] :
             items = [i \in 1..NItems |-> [id |-> i, f |-> k[i].f, c |-> k[i].c, l |-> l[i], at |-> k[i].at]]
        /\ cur = All /\ applied = <<>>
Next == /\ Len(applied) < MaxFilters
        /\ \E F \in Atoms : cur' = Reduced(items, cur, F, Links) /\ applied' = Append(applied, F)
        /\ UNCHANGED items
Spec == Init /\ [][Next]_vars
\* only the set of filters matters, not their order
Composed == applied = <<>> \/ IsResult(items, cur, {i \in 1..NItems : \A j \in 1..Len(applied) : Match(items[i], applied[j], Links)})
\* all at once: different criteria of one filter
AtOnce == (Len(applied) = 2 /\ applied[1].file # "" /\ applied[2].file = "") =>
             cur = Reduced(items, All, [applied[2] EXCEPT !.file = applied[1].file, !.nolink = applied[1].nolink], Links)
Idempotent == applied = <<>> \/ Reduced(items, cur, applied[Len(applied)], Links) = cur
Absent == Selected(items, cur, None, Links) = {cur[i] : i \in 1..Len(cur)}
Shrinks == [][{cur'[i] : i \in 1..Len(cur')} \subseteq {cur[i] : i \in 1..Len(cur)}]_vars
=============================================================================
