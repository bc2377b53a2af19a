---------------------------- MODULE Trace_Inline -----------------------------
(* case: vars: [name, segs], neg, env; obs.vars: observed per variable       *)
EXTENDS TraceBase, Inline

ClassOf(kind) == CASE kind \in {"var", "varapp", "varplus", "varweak"} -> "Variable"
                   [] kind = "flag" -> "FlagAssignment"
                   [] kind = "export" -> "Export"
                   [] kind = "inherit" -> "Inherit"
                   [] kind \in {"func", "pyfunc"} -> "Function"
One(v, o, neg, env) ==
  LET t == Seen(ValueOf(v.segs, neg))
      x == Seen(ExpandedOf(v.segs, neg, env))
  IN Fail(o.kind = ClassOf(v.kind), "kind")
     \cup Fail(o.blocks = Blocks(v.segs, neg), "InlineBlocks")
     \cup Fail(o.realraw = v.head \o RenderSegs(v.segs) \o v.tail, "RealRaw")
     \cup Fail(o.raw = v.head \o ValueOf(v.segs, neg) \o v.tail, "Raw")
     \cup (IF v.kind = "inherit" THEN Fail(Tail(Words(o.value, White)) = Words(t, White), "value")
           ELSE IF v.kind \in {"func", "pyfunc"} THEN {}
           ELSE Fail(o.value = t, "value"))
     \cup (IF v.kind # "var" THEN {}
           ELSE Fail(o.var = Words(Replace(x, Esc, " "), White), "ExpandVar")
                \cup Fail(o.term = x, "ExpandTerm-objref")
                \cup Fail(o.ref = "<" \o x \o ">", "ExpandTerm-reference"))

C06Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE UNION {One(case.vars[i], case.obs.vars[i], case.neg, case.env) : i \in 1..Len(case.vars)}
=============================================================================
