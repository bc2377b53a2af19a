---------------------------- MODULE MC_DataStore -----------------------------
(* All sequences of up to MaxLen assignments to one variable (and one of its *)
(* overrides): what every operator may and may not do.                       *)
EXTENDS DataStore, Json
CONSTANTS MaxLen, Wide
VARIABLES q, st
vars == <<q, st>>

Lit(t) == <<[k |-> "lit", t |-> t]>>
Asg(o, v, ov) == [k |-> "asg", base |-> "A", ov |-> ov, d |-> ":", op |-> o, w1 |-> " ", w2 |-> " ", val |-> Lit(v)]
Ops == {"=", "?=", "??=", ":=", "+=", "=+", ".=", "=."}
Alphabet == {Asg(o, v, <<>>) : o \in Ops, v \in IF Wide THEN {"a", "b c"} ELSE {"a"}}
            \cup {Asg("=", v, <<m>>) : m \in Mods, v \in {"a", " b"}}
            \cup {Asg(o, "f", <<"foo">>) : o \in IF Wide THEN {"=", "+="} ELSE {"+="}}
            \cup {Asg("=", "g", <<"foo", "append">>), Asg("=", "f", <<"remove", "foo">>)}
            \cup {[k |-> "unset", name |-> "A", flag |-> ""], [k |-> "unset", name |-> "A", flag |-> "doc"]}
NoBase == [x \in {} |-> <<>>]
Env == [defs |-> <<>>, base |-> <<>>, spare |-> {}, path |-> "/R/l/recipes/foo_2.bb"]

Init == q = <<>> /\ st = Fresh(NoBase)
Next == /\ Len(q) < MaxLen
        /\ \E a \in Alphabet : q' = Append(q, a) /\ st' = Apply(st, a)
Spec == Init /\ [][Next]_vars

It(s, x) == IF x \in Keys(s) THEN Items(s, x, Env) ELSE <<>>
NewA == q'[Len(q')]
Has2(s) == "A" \in Keys(s)
\* step properties
Steps == [][ LET b == It(st, "A") a == It(st', "A") n == NewA IN
             n.k = "unset" => IF n.flag = "" THEN "A" \notin DOMAIN st'.set /\ "A" \notin DOMAIN st'.weak /\ st'.defer = st.defer ELSE st' = st ]_vars
StepSet == [][ LET n == NewA IN (n.k = "asg" /\ IsImmediate(n)) =>
   LET x == KeyOf(n) v == RenderToks(n.val) IN
     /\ n.op \in {"=", ":="} => RenderToks(st'.set[x]) = v
     /\ n.op = "?=" => (IF x \in DOMAIN st.set THEN st'.set = st.set ELSE RenderToks(st'.set[x]) = v)
     /\ n.op = "??=" => st'.set = st.set /\ (x \in DOMAIN st.set => It(st', x) = It(st, x))
     /\ n.op = "+=" => ItemsOfText(RenderToks(st'.set[x])) = ItemsOfText(RenderToks(Old(st.set, x))) \o ItemsOfText(v)
     /\ n.op = "=+" => ItemsOfText(RenderToks(st'.set[x])) = ItemsOfText(v) \o ItemsOfText(RenderToks(Old(st.set, x)))
     /\ n.op \in {".=", "=."} => Len(RenderToks(st'.set[x])) = Len(RenderToks(Old(st.set, x))) + Len(v) ]_vars
\* other names are untouched
StepFrame == [][ LET n == NewA IN n.k = "asg" => \A x \in (Keys(st) \ {KeyOf(n)}) : It(st', x) = It(st, x) ]_vars
Removed == \A x \in Keys(st) : \A i \in 1..Len(RemovedOf(st, x)) :
             SeqSet(ItemsOfText(RenderToks(RemovedOf(st, x)[i].val))) \cap SeqSet(It(st, x)) = {}
\* a weak default shows only if nothing else was said
Weak == \A x \in DOMAIN st.weak : x \in DOMAIN st.set => Values(st)[x] = Values([st EXCEPT !.weak = Del(@, x)])[x]
\* deferred operations commute with everything immediate
Deferral == st = [ApplyAll(Fresh(NoBase), SelectSeq(q, LAMBDA a : a.k = "unset" \/ IsImmediate(a)))
                    EXCEPT !.defer = SelectSeq(q, LAMBDA a : a.k = "asg" /\ ~IsImmediate(a))]
Emit == IF q = <<>> THEN TRUE ELSE PrintT("CASE " \o ToJson([q |-> q]))
=============================================================================
