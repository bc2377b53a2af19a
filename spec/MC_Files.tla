------------------------------- MODULE MC_Files -------------------------------
(* Files are put into a tree, SRC_URI into files and links between files; in  *)
(* any order. What is found changes by nothing but what it should.            *)
EXTENDS Files, Json
CONSTANTS MaxSteps
VARIABLES tree, linked, setters, steps
vars == <<tree, linked, setters, steps>>
Rec == "/l/a/r.bb"
Inc == "/l/b/i.inc"
App == "/m/a/r.bbappend"
Files3 == {Rec, Inc, App}
Places == {d \o n : d \in {"/l/a/", "/l/a/files/", "/l/b/r/", "/l/a/x/y/", "/m/a/files/", "/l/a/.git/", "/l/"}, n \in {"x.patch", ".x.patch", "x"}}
Patterns == {"*", "*.patch", "x", "?", "[x]*", "[!x]*", ".*", "x.[a-z]atch", ""}
Init == tree = {} /\ linked = [f \in Files3 |-> {f}] /\ setters = {} /\ steps = 0
Put == \E x \in Places : tree' = tree \cup {x} /\ UNCHANGED <<linked, setters>>
Set == \E f \in Files3 : setters' = setters \cup {f} /\ UNCHANGED <<tree, linked>>
Link == \E a, b \in Files3 : a # b /\ linked' = [linked EXCEPT ![a] = @ \cup {b}] /\ UNCHANGED <<tree, setters>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Put \/ Set \/ Link)
Spec == Init /\ [][Next]_vars
F(f, p) == Found(tree, f, p, linked, setters)
Within == \A f \in Files3, p \in Patterns : F(f, p) \subseteq tree /\ (linked[f] \cap setters = {} => F(f, p) = {})
Shapes == \A f \in Files3 : /\ F(f, "*.patch") \subseteq F(f, "*") /\ F(f, "") = {}
                            /\ F(f, "x") = {x \in F(f, "*") : NBase(x) = "x"}
                            /\ F(f, "[x]*") \cup F(f, "[!x]*") = F(f, "*")
                            /\ F(f, ".*") \cap F(f, "*") = {}
Depth == \A f \in Files3 : \A x \in F(f, "*") : \E g \in Files3 : NDir(NDir(x)) = NDir(g)
\* never fewer
Grows == [][\A f \in Files3, p \in Patterns : F(f, p) \subseteq Found(tree', f, p, linked', setters')]_vars
\* a new file is found where its directory counts
NewFile == [][\A f \in Files3 : \A x \in tree' \ tree : (setters = setters' /\ linked = linked') =>
                 Found(tree', f, "*", linked, setters) \ F(f, "*") \subseteq {x}]_vars
=============================================================================
