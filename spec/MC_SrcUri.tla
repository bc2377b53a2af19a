------------------------------ MODULE MC_SrcUri ------------------------------
(* An entry written option by option; what is read is what was written.      *)
EXTENDS SrcUri, Json
CONSTANTS MaxOpts, Emits
VARIABLE ent

Mirrors == <<<<"${M}", "https://mirror.org/pub">>, <<"${OTHER}", "svn://o.org/x;module=m">>>>
Starts == {[scheme |-> s, host |-> h, path |-> p] : s \in {"https", "git", "file"}, h \in {"h.org", "git@h:22", "a.patch", "[::1]", ""},
                                                    p \in {"", "/a", "/a/b.tar.gz", "/x?y=1", "/x#f", "/x?y=1&z=2#q", "/${PN}-${PV}"}}
Keys == {"name", "k"}
Values == {"", "x", "a=b", "x/y?z#w", "${PN}"}
Opts == {[k |-> k, v |-> v, eq |-> TRUE] : k \in Keys, v \in Values} \cup {[k |-> k, v |-> "", eq |-> FALSE] : k \in {"name", "noval", ""}}

Init == ent \in {[scheme |-> s.scheme, host |-> s.host, path |-> s.path, opts |-> <<>>] : s \in {x \in Starts : x.host # "" \/ x.path # ""}}
Next == /\ Len(ent.opts) < MaxOpts
        /\ \E o \in Opts : ent' = [ent EXCEPT !.opts = Append(@, o)]
Spec == Init /\ [][Next]_ent

D(e) == Decompose(Render(e), Mirrors)
Value(e, k) == LET W == {i \in 1..Len(e.opts) : e.opts[i].k = k /\ e.opts[i].eq} IN e.opts[MaxOf(W)].v
RoundTrip == /\ D(ent).scheme = ent.scheme
             /\ D(ent).src = ent.host \o ent.path
             /\ D(ent).options = {<<k, Value(ent, k)>> : k \in {ent.opts[i].k : i \in {j \in 1..Len(ent.opts) : ent.opts[j].eq}}}
\* a further option concerns nothing but its own key
Added == ent'.opts[Len(ent'.opts)]
Local == [][LET a == D(ent) b == D(ent')
            IN a.scheme = b.scheme /\ a.src = b.src
               /\ {o \in a.options : o[1] # Added.k} = {o \in b.options : o[1] # Added.k}
               /\ (~Added.eq => a = b)]_ent
\* a mirror stands for its URL
Mirror == \A i \in 1..2 : \A r \in {"", "/a/b;name=x", ";k=v"} : Decompose(Mirrors[i][1] \o r, Mirrors) = Decompose(Mirrors[i][2] \o r, Mirrors)
Emit == IF Emits THEN PrintT("CASE " \o ToJson([text |-> Render(ent)])) ELSE TRUE
=============================================================================
