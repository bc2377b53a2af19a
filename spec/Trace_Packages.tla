--------------------------- MODULE Trace_Packages ----------------------------
(* case: files, base, asks (dynamic names: <<text, tokens>>), obs.files: per *)
(* file of the stash what was told                                           *)
EXTENDS TraceBase, Packages

NoEmpty(S) == S \ {""}
C18Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE UNION {
    LET o == case.obs.files[i]
        p == o.p
        F == TLCEval(SeqSet(o.links))
        env == TLCEval(EnvFor(case.files, F, p, case.base, {}))
        dyn == TLCEval(Dynamic(case.files, F, p, case.base))
        env0 == EnvFor(case.files, {}, p, case.base, {})
    IN Fail(o.name = RecipeName(p), "GuessRecipeName")
       \cup Fail(o.bpn = BaseRecipeName(p), "GuessBaseRecipeName")
       \cup Fail(o.version = (IF HasVersion(p) THEN RecipeVersion(p) ELSE "<None>"), "GuessRecipeVersion")
       \cup UNION {Fail(o.exp[n] = Full(env, <<[k |-> "ref", x |-> n]>>), "expansion-of-" \o n) : n \in {"PN", "PV", "BPN"}}
       \cup Fail(NoEmpty(SeqSet(o.pkgs)) = NoEmpty(ValidNames(case.files, F, p, case.base, FALSE)), "GetValidPackageNames")
       \cup Fail(NoEmpty(SeqSet(o.stripped)) = NoEmpty(ValidNames(case.files, F, p, case.base, TRUE)), "GetValidPackageNames-strippn")
       \cup Fail(NoEmpty(SeqSet(o.res)) = NoEmpty(Resources(case.files, F, p, case.obs.mirrors)), "GetValidNamedResources")
       \cup Fail(SeqSet(o.dyn) = dyn, "GetPackagesDynamic")
       \cup (IF \A d \in dyn : PatternOk(d)
             THEN UNION {LET n == Full(env, case.asks[k])
                         IN Fail(~NameOk(n) \/ o.isdyn[k] = (\E d \in dyn : StartFits(d, n)), "IsDynamicPackage") : k \in 1..Len(case.asks)}
             ELSE {})
    : i \in 1..Len(case.obs.files)}

C19Verdict(case) ==
  IF case.obs.error # "" THEN {"no-exception"}
  ELSE UNION {
    LET o == case.obs.files[i]
        F == TLCEval(SeqSet(o.links))
    IN Fail(o.image = IsImage(case.files, F, SeqSet(case.obs.classes), SeqSet(case.obs.variables)), "IsImage")
       \cup Fail(o.group = IsPackageGroup(case.files, F), "IsPackageGroup")
    : i \in 1..Len(case.obs.files)}
=============================================================================
