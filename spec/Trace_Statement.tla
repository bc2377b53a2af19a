--------------------------- MODULE Trace_Statement ---------------------------
(* case: stmts (abstract), text, opts, distros; obs.items: attributes of the *)
(* items of the file in file order                                           *)
EXTENDS TraceBase, Statement

\* what the statement leaves open
Open(e, g) == IF g \in {"VarValueStripped", "ValueStripped"} THEN e[g] = OpenText
              ELSE IF g \in {"get_items", "versioned"} THEN e[g] = OpenList ELSE FALSE

\* the kind of the file an item is from
From_(case, i) == LET o == case.obs.items[i] IN
  Opt(o.fromclass # Yes(EndsWith(case.name, ".bbclass")), "IsFromClass") \o Opt(o.fromappend # Yes(EndsWith(case.name, ".bbappend")), "IsFromAppend")

Compare(s, ns, D, K, o) ==
  LET e == Expected(s, ns, D, K)
  IN IF o.cls # e.cls THEN {s.k \o "-kind"}
     ELSE {s.k \o "-" \o f : f \in {g \in DOMAIN e : IF g \in DOMAIN o THEN (IF Open(e, g) THEN FALSE ELSE o[g] # e[g]) ELSE TRUE}}

OverrideFields == {"VarName", "RawVarName", "SubItem", "SubItems", "VarNameComplete", "VarNameCompleteNoModifiers", "IsAppend",
                   "AppendOperation", "IsImmediateModify", "GetClassOverride", "GetMachineEntry", "GetDistroEntry",
                   "OverrideDelimiter", "IsNewStyleOverrideSyntax", "FuncName", "FuncNameComplete"}

Check(case) ==
  LET o == case.obs IN
  IF o.error # "" THEN {"no-exception"}
  ELSE IF TextOf(case.stmts) # case.text THEN {"MACHINERY rendering differs"}
  ELSE IF Len(o.items) # Len(case.stmts) THEN {"number-of-items"}
  ELSE LET D == SeqSet(case.distros)
           K == SeqSet(case.functions)
       IN UNION {SeqSet(From_(case, i)) : i \in 1..Len(case.stmts)} \cup UNION {Compare(case.stmts[i], StyleBefore(case.stmts, i, case.opts.newstyle), D, K, o.items[i]) : i \in 1..Len(case.stmts)}
C03Verdict(case) == Check(case)
\* only what concerns names and overrides
C04Verdict(case) == LET v == Check(case)
                    IN {x \in v \ {"IsFromClass", "IsFromAppend"} : ~(\E k \in {"flag", "def", "inherit", "INHERIT", "include", "export", "exportval"} : StartsWith(x, k \o "-"))}
=============================================================================
