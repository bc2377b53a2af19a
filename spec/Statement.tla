----------------------------- MODULE Statement ------------------------------
(* The statements of bitbake: how each is written (Render) and what a parser *)
(* has to report about it (Expected). A statement is a record with field k;  *)
(* optional whitespace and line continuations are fields, too.               *)
(*                                                                           *)
(* Observed texts show the internal mark of a continuation as "^[".          *)
EXTENDS Text

Esc == "^["
\* a value over several lines: pieces joined by backslash and line break
Cont(ps) == Join(ps, "\\\n")
ContSeen(ps) == Join(ps, Esc)
\* what the parser matches against: no line breaks, backslashes marked
Seen(text) == Replace(Replace(text, "\\\n", Esc), "\n", "")
WordsOf(text) == Words(Replace(text, Esc, " "), White)

NameOf(s) == Join(<<s.base>> \o s.ov, s.d)

---------------------------------------------------------------------------
VarOps == {"=", "?=", "??=", ":=", "+=", "=+", ".=", "=."}
Modifiers == {"append", "prepend", "remove"}
ClassOverrides == {"class-native", "class-nativesdk", "class-cross", "class-target"}
FuncMarkers == Modifiers \cup ClassOverrides

TaskList(kw, q, b) == IF q = <<>> THEN "" ELSE b \o kw \o b \o Join(q, b)
\* the quote of a value; " unless said otherwise
Quote(s) == IF "qt" \in DOMAIN s THEN s.qt ELSE "\""
\* the blanks between the words of a statement; one space unless said otherwise
Gap(s) == IF "gap" \in DOMAIN s THEN s.gap ELSE " "

Render(s) ==
  CASE s.k = "var" -> NameOf(s) \o s.w1 \o s.op \o s.w2 \o Quote(s) \o Cont(s.val) \o Quote(s) \o s.tail \o "\n"
    [] s.k = "flag" -> s.name \o "[" \o s.flag \o "]" \o s.w1 \o s.op \o s.w2 \o Quote(s) \o Cont(s.val) \o Quote(s) \o "\n"
    [] s.k = "func" -> s.pre \o NameOf(s) \o s.w1 \o "(" \o s.w2 \o ")" \o s.w3 \o "{\n" \o Concat(s.body) \o "}\n"
    [] s.k = "def" -> "def" \o s.w1 \o s.name \o "(" \o s.args \o ")" \o s.ann \o ":\n" \o Concat(s.body)
    [] s.k = "inherit" -> s.w1 \o s.kw \o s.w2 \o Concat([i \in 1..Len(s.cls) |-> IF i = 1 THEN s.cls[i] ELSE s.sep \o s.cls[i]]) \o "\n"
    [] s.k = "INHERIT" -> "INHERIT" \o s.w1 \o s.op \o s.w2 \o "\"" \o Concat([i \in 1..Len(s.cls) |-> IF i = 1 THEN s.cls[i] ELSE s.sep \o s.cls[i]]) \o "\"\n"
    [] s.k = "include" -> s.w1 \o s.kw \o s.w2 \o s.name \o "\n"
    [] s.k = "includeall" -> "include_all" \o s.w2 \o s.name \o "\n"
    [] s.k = "export" -> s.w1 \o "export" \o s.w2 \o s.name \o "\n"
    [] s.k = "exportval" -> s.w1 \o "export" \o s.w2 \o s.name \o s.w3 \o s.op \o s.w4 \o Quote(s) \o Cont(s.val) \o Quote(s) \o "\n"
    [] s.k = "addtask" -> "addtask" \o s.w1 \o s.name
                          \o (IF s.first = "before" THEN TaskList("before", s.before, Gap(s)) \o TaskList("after", s.after, Gap(s))
                              ELSE TaskList("after", s.after, Gap(s)) \o TaskList("before", s.before, Gap(s)))
                          \o (IF s.comment = "" THEN "" ELSE " " \o s.comment) \o "\n"
    [] s.k = "deltask" -> "deltask" \o s.w1 \o s.name \o (IF s.comment = "" THEN "" ELSE " " \o s.comment) \o "\n"
    [] s.k = "unset" -> s.w1 \o "unset" \o s.w2 \o s.name \o (IF s.flag = "" THEN "" ELSE "[" \o s.flag \o "]") \o "\n"
    [] s.k = "exportfunc" -> "EXPORT_FUNCTIONS" \o s.w1 \o Join(s.names, Gap(s)) \o "\n"
    [] s.k = "addpylib" -> "addpylib" \o " " \o s.path \o " " \o s.ns \o "\n"
    [] s.k = "addfragments" -> "addfragments" \o " " \o s.path \o " " \o s.variable \o " " \o s.flagged \o "\n"
    [] s.k = "comment" -> Concat([i \in 1..Len(s.lines) |-> "#" \o s.lines[i] \o "\n"])
    [] s.k = "blank" -> s.w1 \o "\n"

---------------------------------------------------------------------------
(* Overrides. ns: the new-style delimiter is in force in front of the statement *)
NewStyle(s, ns) == ns \/ (s.k \in {"var", "func"} /\ \E i \in 1..Len(NameOf(s)) : Ch(NameOf(s), i) = ":")
Delim(s, ns) == IF NewStyle(s, ns) THEN ":" ELSE "_"
\* an old-style name behind a new-style one is one name without overrides
Foreign(s, ns) == NewStyle(s, ns) /\ s.d = "_"
Base(s, ns) == IF Foreign(s, ns) THEN NameOf(s) ELSE s.base
Ov(s, ns) == IF Foreign(s, ns) THEN <<>> ELSE s.ov

\* functions: the name ends in front of the first marker, or where it is a function known to the constants (K)
Chunks(s, ns) == SplitAt(NameOf(s), Delim(s, ns))
FirstMarker(s, ns, K) == LET q == Chunks(s, ns)
                             M == {i \in 2..Len(q) : q[i] \in FuncMarkers \/ Join(SubSeq(q, 1, i - 1), Delim(s, ns)) \in K}
                         IN IF M = {} THEN Len(q) + 1 ELSE MinOf(M)
FBase(s, ns, K) == Join(SubSeq(Chunks(s, ns), 1, FirstMarker(s, ns, K) - 1), Delim(s, ns))
FOv(s, ns, K) == SubSeq(Chunks(s, ns), FirstMarker(s, ns, K), Len(Chunks(s, ns)))

FirstIn(q, Test(_)) == LET M == {i \in 1..Len(q) : Test(q[i])} IN IF M = {} THEN "" ELSE q[MinOf(M)]
Machine(q) == FirstIn(q, LAMBDA x : x \notin (FuncMarkers \cup {"machine"}))
Class(q) == FirstIn(q, LAMBDA x : x \in ClassOverrides)
Distro(q, Known) == FirstIn(q, LAMBDA x : x \in Known)
Yes(b) == IF b THEN "TRUE" ELSE "FALSE"
Opt(b, x) == IF b THEN <<x>> ELSE <<>>

\* remove the common indentation (blanks) of the lines with text
Indent(ln) == Skip(ln, {" "}, 1) - 1
IsBlank(ln) == Strip(ln, White) = ""
Dedent(text) ==
  LET ls == LinesOf(text)
      T == {i \in 1..Len(ls) : ~IsBlank(ls[i])}
      m == IF T = {} THEN 0 ELSE MinOf({Indent(ls[i]) : i \in T})
  IN Concat([i \in 1..Len(ls) |-> IF IsBlank(ls[i]) THEN (IF EndsWith(ls[i], "\n") THEN "\n" ELSE "")
                                  ELSE From(ls[i], m + 1)])
SplitLines(text) == SplitAt(text, "\n")

\* without the constraints on versions, "a (>= 1) b" -> "a b"
RECURSIVE NoVersions(_)
NoVersions(s) == LET a == Find(s, "(")
                     b == IF a = 0 THEN 0 ELSE FindFrom(s, ")", a)
                 IN IF b = 0 THEN s ELSE RStrip(Upto(s, a - 1), White) \o NoVersions(From(s, b + 1))
RECURSIVE Without(_, _)
Without(s, S) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in S THEN "" ELSE Ch(s, 1)) \o Without(From(s, 2), S)
\* what the statement does not settle: the quotes of 'x' are not taken off
OpenText == "<any>"
OpenList == <<"<any>">>
\* the items of another text than the value
OtherText == "\"x y (>= 1)  z\""
OtherWords == <<"x", "y", "(>=", "1)", "z">>

Appending(op) == op \in {"+=", "=+", ".=", "=."}

\* D: known distros, K: known functions
Expected(s, ns, D, K) ==
  CASE s.k = "var" ->
         LET q == Ov(s, ns)
             op == s.w1 \o s.op \o s.w2
             inner == ContSeen(s.val)
         IN [cls |-> "Variable", VarName |-> Base(s, ns), RawVarName |-> Base(s, ns),
             SubItem |-> Join(q, Delim(s, ns)), SubItems |-> q,
             VarNameComplete |-> NameOf(s),
             VarNameCompleteNoModifiers |-> Join(<<Base(s, ns)>> \o SelectSeq(q, LAMBDA x : x \notin Modifiers), Delim(s, ns)),
             VarOp |-> op, VarValue |-> Quote(s) \o inner \o Quote(s) \o s.tail,
             VarValueStripped |-> IF Quote(s) = "\"" THEN inner ELSE OpenText,
             get_items |-> IF Quote(s) = "\"" THEN WordsOf(inner) ELSE OpenList,
             versioned |-> IF Quote(s) = "\"" THEN WordsOf(NoVersions(inner)) ELSE OpenList,
             override |-> OtherWords,
             IsAppend |-> Yes(Appending(s.op) \/ \E i \in 1..Len(q) : q[i] \in {"append", "prepend"}),
             AppendOperation |-> Opt(Appending(s.op), op) \o Opt("append" \in SeqSet(q), "append")
                                 \o Opt("prepend" \in SeqSet(q), "prepend") \o Opt("remove" \in SeqSet(q), "remove"),
             IsImmediateModify |-> Yes(SeqSet(q) \cap Modifiers = {}),
             IsMultiLine |-> Yes(Len(s.val) > 1),
             GetClassOverride |-> Class(q), GetMachineEntry |-> Machine(q), GetDistroEntry |-> Distro(q, D),
             OverrideDelimiter |-> Delim(s, ns), IsNewStyleOverrideSyntax |-> Yes(NewStyle(s, ns))]
    [] s.k = "flag" ->
         [cls |-> "FlagAssignment", VarName |-> s.name, Flag |-> s.flag, VarOp |-> s.w1 \o s.op \o s.w2,
          Value |-> Quote(s) \o ContSeen(s.val) \o Quote(s),
          ValueStripped |-> IF Quote(s) = "\"" THEN ContSeen(s.val) ELSE OpenText,
          get_items |-> IF Quote(s) = "\"" THEN <<s.name, s.flag, s.w1 \o s.op \o s.w2, ContSeen(s.val)>> ELSE OpenList]
    [] s.k = "func" ->
         LET raw == Dedent("\n" \o Concat(s.body))
             q == FOv(s, ns, K)
         IN [cls |-> "Function", FuncName |-> FBase(s, ns, K), SubItem |-> Join(q, Delim(s, ns)), SubItems |-> q,
             FuncNameComplete |-> NameOf(s),
             IsPython |-> Yes(Contains(s.pre, "python")), IsFakeroot |-> Yes(Contains(s.pre, "fakeroot")),
             FuncBody |-> Seen(Concat(s.body)), FuncBodyStripped |-> Strip(Without(Seen(Concat(s.body)), {"{", "}"}), White),
             FuncBodyRaw |-> raw, get_items |-> SplitLines(raw),
             IsAppend |-> Yes(SeqSet(q) \cap {"append", "prepend"} # {}),
             GetMachineEntry |-> Machine(q), GetDistroEntry |-> Distro(q, D),
             OverrideDelimiter |-> Delim(s, ns), IsNewStyleOverrideSyntax |-> Yes(NewStyle(s, ns))]
    [] s.k = "def" -> [cls |-> "PythonBlock", FuncName |-> s.name, get_items |-> SplitLines(Render(s))]
    [] s.k = "inherit" -> [cls |-> "Inherit", Statement |-> s.kw, get_items |-> s.cls,
                           Class |-> Seen(Concat([i \in 1..Len(s.cls) |-> IF i = 1 THEN s.cls[i] ELSE s.sep \o s.cls[i]]))]
    [] s.k = "INHERIT" -> [cls |-> "Inherit", Statement |-> "INHERIT", get_items |-> s.cls,
                           Class |-> Seen(Concat([i \in 1..Len(s.cls) |-> IF i = 1 THEN s.cls[i] ELSE s.sep \o s.cls[i]]))]
    [] s.k = "include" -> [cls |-> "Include", Statement |-> s.kw, IncName |-> s.name, FileIncluded |-> "", get_items |-> <<s.name, s.kw>>]
    [] s.k = "includeall" -> [cls |-> "IncludeAll", File |-> s.name, get_items |-> <<s.name>>]
    [] s.k = "export" -> [cls |-> "Export", Name |-> s.name, Value |-> "", get_items |-> <<s.name, "">>]
    [] s.k = "exportval" -> [cls |-> "Export", Name |-> s.name, Value |-> ContSeen(s.val), get_items |-> <<s.name, ContSeen(s.val)>>]
    [] s.k = "addtask" -> [cls |-> "TaskAdd", FuncName |-> s.name, Before |-> s.before, After |-> s.after, Comment |-> s.comment,
                           get_items |-> <<s.name>> \o s.before \o s.after]
    [] s.k = "deltask" -> [cls |-> "TaskDel", FuncName |-> s.name, Comment |-> s.comment, get_items |-> <<s.name>>]
    [] s.k = "unset" -> [cls |-> "Unset", VarName |-> s.name, Flag |-> s.flag, get_items |-> <<s.name, s.flag>>]
    [] s.k = "exportfunc" -> [cls |-> "FunctionExports", FuncNames |-> Seen(Join(s.names, Gap(s))), get_items |-> s.names,
                              get_items_unaliased |-> [i \in 1..Len(s.names) |-> s.stem \o "-" \o s.names[i]]]
    [] s.k = "addpylib" -> [cls |-> "AddPylib", Path |-> s.path, Namespace |-> s.ns, get_items |-> <<s.path, s.ns>>]
    [] s.k = "addfragments" -> [cls |-> "AddFragements", Path |-> s.path, Variable |-> s.variable, Flagged |-> s.flagged,
                                get_items |-> <<s.path, s.variable, s.flagged>>]
    [] s.k = "comment" -> [cls |-> "Comment", get_items |-> SplitLines(Render(s))]
    [] s.k = "blank" -> [cls |-> "Item"]

\* the new-style delimiter in front of statement i of a file
RECURSIVE StyleBefore(_, _, _)
StyleBefore(stmts, i, forced) == forced \/ (IF i <= 1 THEN FALSE
                                            ELSE NewStyle(stmts[i - 1], FALSE) \/ StyleBefore(stmts, i - 1, forced))
TextOf(stmts) == Concat([i \in 1..Len(stmts) |-> Render(stmts[i])])
=============================================================================
