---------------------------- MODULE Gen_Statement ----------------------------
(* Enumerates statements: every kind x optional whitespace x operator, and   *)
(* names with every sequence of overrides up to MaxOv in both syntaxes,      *)
(* alone and behind a statement that switches the style of the file.         *)
EXTENDS Statement, Json
CONSTANTS MaxOv, Kinds
VARIABLES file, forced
vars == <<file, forced>>

Ws == {"", " ", "\t"}
Ws1 == {" ", "\t"}
Vals == {<<"a b">>, <<"">>, <<"a \\x">>, <<"a ", " b">>, <<"", "b", "c ">>}
PlainVals == {<<"a b">>, <<"">>, <<"a ", " b">>, <<"", "b", "c ">>}
SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
OvSet == {"append", "prepend", "remove", "class-native", "class-nativesdk", "poky", "${PN}-dev", "qemux86", "x86-64", "machine"}
Bases == {"A", "SRC_URI", "_P", "D__E"}
FBases == {"do_x", "pkg_postinst", "append_x", "__f"}

VarsWs == {[k |-> "var", base |-> "AB", ov |-> <<>>, d |-> ":", op |-> o, w1 |-> a, w2 |-> b, val |-> v, tail |-> t] :
           o \in VarOps, a \in Ws, b \in Ws, v \in PlainVals, t \in {"", " "}}
VarsOv == {[k |-> "var", base |-> n, ov |-> q, d |-> d, op |-> o, w1 |-> " ", w2 |-> " ", val |-> <<"v">>, tail |-> ""] :
           n \in Bases, q \in SeqsUpTo(OvSet, MaxOv), d \in {":", "_"}, o \in {"=", "+="}}
FuncsWs == {[k |-> "func", base |-> "do_x", ov |-> <<>>, d |-> ":", pre |-> p, w1 |-> a, w2 |-> b, w3 |-> c, body |-> y] :
            p \in {"", "python ", "fakeroot ", "fakeroot python ", "python  "}, a \in {"", " "}, b \in {"", " "}, c \in {"", " "},
            y \in {<<>>, <<"  a\n">>, <<"    a {\n", "\n", "      }\n">>}}
MarkedOv == {q \in SeqsUpTo(OvSet \cap ({"append", "prepend", "remove", "class-native", "poky", "${PN}-dev", "machine"}), MaxOv) :
             TRUE}
FuncsOv == {[k |-> "func", base |-> n, ov |-> q, d |-> d, pre |-> p, w1 |-> "", w2 |-> "", w3 |-> " ", body |-> <<"    x\n">>] :
            n \in FBases, q \in MarkedOv, d \in {":", "_"}, p \in {"", "python "}}
SingleQuoted == {[k |-> "var", base |-> "AB", ov |-> <<>>, d |-> ":", op |-> o, w1 |-> " ", w2 |-> " ", val |-> v, tail |-> "", qt |-> "'"] :
                 o \in VarOps, v \in PlainVals \cup {<<"a \"b\" c">>}}
                \cup {[k |-> "flag", name |-> n, flag |-> "noexec", w1 |-> " ", op |-> o, w2 |-> " ", val |-> <<"v \"w\"">>, qt |-> "'"] : n \in {"do_x"}, o \in VarOps}
                \cup {[k |-> "exportval", w1 |-> "", w2 |-> " ", name |-> "A", w3 |-> " ", op |-> o, w4 |-> " ", val |-> v, qt |-> "'"] :
                        o \in VarOps, v \in {<<"a \"b\"">>, <<"a", " b">>}}
Flags == {[k |-> "flag", name |-> n, flag |-> f, w1 |-> a, op |-> o, w2 |-> b, val |-> <<"v w">>] :
          n \in {"do_x", "A"}, f \in {"noexec", "a-b", "x.y"}, a \in Ws, b \in Ws, o \in VarOps}
Inherits == {[k |-> "inherit", kw |-> w, w1 |-> a, w2 |-> b, cls |-> q, sep |-> s] :
             w \in {"inherit", "inherit_defer"}, a \in Ws, b \in Ws1, q \in {<<"a">>, <<"a", "b-c">>, <<"a", "b", "c">>}, s \in {" ", "  ", " \\\n  "}}
INHERITs == {[k |-> "INHERIT", w1 |-> a, op |-> o, w2 |-> b, cls |-> q, sep |-> " "] :
             a \in Ws, o \in VarOps, b \in Ws, q \in {<<"a">>, <<"a", "b">>}}
Includes == {[k |-> "include", kw |-> w, w1 |-> a, w2 |-> b, name |-> n] :
             w \in {"include", "require"}, a \in {"", " "}, b \in Ws1, n \in {"no/x.inc", "a-b_1.0.inc", "${PN}-x.inc", "x+y@z~.inc"}}
Exports == {[k |-> "export", w1 |-> a, w2 |-> b, name |-> n] : a \in {"", " "}, b \in Ws1, n \in {"A", "MY_VAR"}}
           \cup {[k |-> "exportval", w1 |-> "", w2 |-> b, name |-> n, w3 |-> a, op |-> o, w4 |-> c, val |-> v] :
                 b \in Ws1, n \in {"A", "MY_VAR"}, a \in Ws, o \in VarOps, c \in {"", " "}, v \in {<<"a b">>, <<"a", " b">>}}
TaskQ == {<<>>, <<"do_a">>, <<"run_after", "do_b-c">>}
Tasks == {[k |-> "addtask", w1 |-> a, name |-> n, before |-> b, after |-> c, first |-> f, comment |-> t, gap |-> g] :
          a \in Ws1, g \in {" ", "\t", "  ", " \\\n  "}, n \in {"do_x", "after_x"}, b \in TaskQ, c \in TaskQ, f \in {"before", "after"}, t \in {"", "# x"}}
         \cup {[k |-> "deltask", w1 |-> a, name |-> n, comment |-> t] : a \in Ws1, n \in {"do_x", "y-z"}, t \in {"", "# x"}}
Unsets == {[k |-> "unset", w1 |-> a, w2 |-> b, name |-> n, flag |-> f] : a \in {"", " "}, b \in Ws1, n \in {"A", "do_x", "A:append"}, f \in {"", "noexec", "a-b"}}
Defs == {[k |-> "def", w1 |-> a, name |-> n, args |-> g, ann |-> t, body |-> <<"    return 1\n", "\n">>] :
         a \in Ws1, n \in {"f", "get_x", "X1"}, g \in {"", "d", "d, e=(1, 2)"}, t \in {"", " -> str"}}
Rest == {[k |-> "exportfunc", w1 |-> a, names |-> q, stem |-> "abc_1.0", gap |-> g] : a \in Ws1, g \in {" ", "\t", "  ", " \\\n  "}, q \in {<<"do_a">>, <<"do_a", "do_b">>}}
        \cup {[k |-> "addpylib", path |-> "${LAYERDIR}/lib", ns |-> n] : n \in {"oe", "a.b"}}
        \cup {[k |-> "addfragments", path |-> "conf/f", variable |-> "X", flagged |-> "Y_Z"]}
        \cup {[k |-> "includeall", w2 |-> a, name |-> "conf/x.conf"] : a \in Ws1}
        \cup {[k |-> "comment", lines |-> q] : q \in {<<"">>, <<" A = \"1\"", "# b">>}}
        \cup {[k |-> "blank", w1 |-> a] : a \in Ws}

AllStmts == CASE Kinds = "names" -> VarsOv \cup FuncsOv
              [] OTHER -> VarsWs \cup SingleQuoted \cup FuncsWs \cup Flags \cup Inherits \cup INHERITs \cup Includes \cup Exports \cup Tasks \cup Unsets \cup Defs \cup Rest

Switch == [k |-> "var", base |-> "Z", ov |-> <<"append">>, d |-> ":", op |-> "=", w1 |-> " ", w2 |-> " ", val |-> <<"v">>, tail |-> ""]
Old == [Switch EXCEPT !.d = "_"]
Files(s) == IF Kinds = "names" THEN {<<s, Old>>, <<Switch, s>>, <<Old, s, Old>>} ELSE {<<s>>}

Init == /\ \E s \in AllStmts : file \in Files(s)
        /\ forced \in (IF Kinds = "names" THEN BOOLEAN ELSE {FALSE})
Next == UNCHANGED vars

D == {"poky"}
K == {"do_x"}
E(i) == Expected(file[i], StyleBefore(file, i, forced), D, K)
\* what is expected agrees with what was written
Names == \A i \in 1..Len(file) : file[i].k = "var" =>
   /\ E(i).VarNameComplete = NameOf(file[i])
   /\ Join(<<E(i).VarName>> \o E(i).SubItems, E(i).OverrideDelimiter) = NameOf(file[i])
   /\ \A j \in 1..Len(E(i).AppendOperation) : E(i).AppendOperation[j] \in SeqSet(E(i).SubItems) \cup {E(i).VarOp}
   /\ (E(i).AppendOperation = <<>>) = (~Appending(file[i].op) /\ E(i).IsImmediateModify = "TRUE")
FuncNames == \A i \in 1..Len(file) : file[i].k = "func" =>
   Join(<<E(i).FuncName>> \o E(i).SubItems, E(i).OverrideDelimiter) = E(i).FuncNameComplete
\* the delimiter is sticky
Sticky == \A i \in 2..Len(file) : StyleBefore(file, i - 1, forced) => StyleBefore(file, i, forced)
\* no text has two meanings
ASSUME Unambiguous == Cardinality({Render(s) : s \in AllStmts}) = Cardinality({<<Render(s), Expected(s, FALSE, {}, {})>> : s \in AllStmts})
Emit == PrintT("CASE " \o ToJson([stmts |-> file, text |-> TextOf(file), newstyle |-> forced]))
=============================================================================
