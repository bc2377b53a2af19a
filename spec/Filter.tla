-------------------------------- MODULE Filter --------------------------------
(* Selecting items.                                                          *)
(* item:   [id, f (file), c (kind), l (line), at (sequence of <<name, value>>)] *)
(* filter: [file ("" if absent), nolink, cls, attr, val (sequences)]         *)
EXTENDS Naturals, Sequences, FiniteSets

InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
\* links: sequence of [f, to]: the files linked to f (including f)
LinkedTo(links, f) == LET S == {i \in 1..Len(links) : links[i].f = f}
                      IN IF S = {} THEN {f} ELSE LET i == CHOOSE j \in S : TRUE IN {links[i].to[k] : k \in 1..Len(links[i].to)} \cup {f}
MatchFile(x, F, links) == F.file = "" \/ (IF F.nolink THEN x.f = F.file ELSE x.f \in LinkedTo(links, F.file))
MatchKind(x, F) == F.cls = <<>> \/ InSeq(x.c, F.cls)
MatchAttr(x, F) == F.attr = <<>> \/ \E i \in 1..Len(x.at) : InSeq(x.at[i][1], F.attr) /\ (F.val = <<>> \/ InSeq(x.at[i][2], F.val))
Match(x, F, links) == MatchFile(x, F, links) /\ MatchKind(x, F) /\ MatchAttr(x, F)

\* the ids selected from a list of ids (every id is an index of items)
Selected(items, q, F, links) == {q[i] : i \in {j \in 1..Len(q) : Match(items[q[j]], F, links)}}
IsResult(items, r, S) == /\ {r[i] : i \in 1..Len(r)} = S
                         /\ Len(r) = Cardinality(S)
                         /\ \A i \in 1..(Len(r) - 1) : items[r[i]].l <= items[r[i + 1]].l
\* as a sequence: ascending lines, ties in the order of the list
RECURSIVE Pick(_, _, _)
First(items, q, S) == CHOOSE i \in 1..Len(q) : /\ q[i] \in S
                                               /\ \A j \in 1..Len(q) : q[j] \in S =>
                                                     (items[q[i]].l < items[q[j]].l \/ (items[q[i]].l = items[q[j]].l /\ (i <= j \/ q[i] = q[j])))
                                               /\ \A j \in 1..(i - 1) : q[j] # q[i]
Pick(items, q, S) == IF S = {} THEN <<>> ELSE LET x == q[First(items, q, S)] IN <<x>> \o Pick(items, q, S \ {x})
Reduced(items, q, F, links) == Pick(items, q, Selected(items, q, F, links))
RECURSIVE ReducedBy(_, _, _, _)
ReducedBy(items, q, Fs, links) == IF Fs = <<>> THEN q ELSE ReducedBy(items, Reduced(items, q, Head(Fs), links), Tail(Fs), links)
=============================================================================
