------------------------------ MODULE MC_Inline ------------------------------
(* All values of up to MaxSegs segments: the machine that scans the text     *)
(* finds exactly the blocks of the value, in order, and restoring undoes it. *)
EXTENDS Inline, Json
CONSTANT MaxSegs
VARIABLES segs, neg, text, blocks
vars == <<segs, neg, text, blocks>>

A(t) == [t |-> t, q |-> "'"]
D == [t |-> "d", q |-> ""]
Call(f, ts) == [k |-> "call", f |-> f, sep |-> ", ", o |-> "", c |-> "", args |-> [i \in 1..Len(ts) |-> IF ts[i] = "d" THEN D ELSE A(ts[i])]]
Calls == {Call("bb.utils.contains", <<"V", "w", "yes", "no", "d">>), Call("bb.utils.contains_any", <<"V", "w x", "a,b", "", "d">>),
          Call("bb.utils.filter", <<"V", "w", "d">>), Call("oe.utils.conditional", <<"V", "w", "", "n n", "d">>),
          Call("oe.utils.ifelse", <<"V", "i", "j">>), Call("oe.utils.any_distro_features", <<"d", "w">>),
          Call("oe.utils.all_distro_features", <<"d", "w", "yes">>), Call("oe.utils.all_distro_features", <<"d", "w", "${B}", "n">>),
          Call("oe.utils.both_contain", <<"V", "W", "b", "d">>), Call("oe.utils.vartrue", <<"V", "p", "q", "d">>),
          Call("oe.utils.less_or_equal", <<"V", "2", "le", "gt", "d">>), Call("oe.utils.version_less_or_equal", <<"V", "2", "vle", "vgt", "d">>)}
Lits == {[k |-> "lit", t |-> "a"], [k |-> "lit", t |-> " ${B} "]}
Unks == {[k |-> "unk", t |-> "foo(d)"], [k |-> "unk", t |-> "{'a': {}}"], [k |-> "unk", t |-> "f('${B}')"]}
Gets == {[k |-> "getvar", x |-> "SET", q |-> "'", more |-> ""], [k |-> "getvar", x |-> "UNSET", q |-> "'", more |-> ", True"]}
Segs == Calls \cup Lits \cup Unks \cup Gets
\* calls are interchangeable for the scanner behind the first one
SeqsOf(n) == [1..n -> Segs]

Init == /\ \E n \in 0..MaxSegs : segs \in SeqsOf(n)
        /\ neg \in BOOLEAN
        /\ text = RenderSegs(segs)
        /\ blocks = <<>>
Orig == SelectSeq(segs, LAMBDA s : s.k # "lit")
Take == /\ Contains(text, "${@")
        /\ LET b == FirstBlock(text)
               r == Replaced(Orig[Len(blocks) + 1], neg)
           IN blocks' = Append(blocks, <<b, r>>) /\ text' = ReplaceFirst(text, b, r)
        /\ UNCHANGED <<segs, neg>>
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ~Contains(text, "${@")
RightBlocks == \A i \in 1..Len(blocks) : blocks[i] = Blocks(segs, neg)[i]
Complete == Done => /\ blocks = Blocks(segs, neg)
                    /\ text = ValueOf(segs, neg)
                    /\ RestoreAll(text, blocks) = RestoredOf(segs, neg)
Terminates == <>Done
Emit == IF blocks = <<>> THEN PrintT("CASE " \o ToJson([segs |-> segs, neg |-> neg])) ELSE TRUE
=============================================================================
