----------------------------- MODULE MC_Packages -----------------------------
(* A recipe, an include and a stranger are filled statement by statement.    *)
EXTENDS Packages, Json
CONSTANTS MaxStmts, Emits, Mode
VARIABLES files, path
vars == <<files, path>>
L(t) == [k |-> "lit", t |-> t]
R(x) == [k |-> "ref", x |-> x]
V(b, op, q, d) == [k |-> "var", b |-> b, op |-> op, q |-> q, def |-> d]
I(w, kw) == [k |-> "inh", w |-> w, kw |-> kw]
PkgStmts == {V("PACKAGES", "=+", <<R("PN"), L("-x y")>>, FALSE), V("PACKAGE_BEFORE_PN", "=", <<R("A"), L(" z")>>, TRUE), V("A", "=", <<R("PN"), L("-a")>>, TRUE),
             V("PACKAGES_DYNAMIC", "=", <<L("^"), R("PN"), L("-d.*")>>, TRUE), V("SRC_URI", "+=", <<L("git://h/p;name=n1 file://a;name="), R("PN")>>, FALSE),
             V("PACKAGESX", "=", <<L("no")>>, TRUE)}
KindStmts == {I(<<"image">>, "inherit"), I(<<"nothing", "core-image">>, "inherit"), I(<<"packagegroup">>, "inherit"), I(<<"image-x", "my-image", "packagegroups">>, "inherit"),
              I(<<"nothing", "packagegroup">>, "INHERIT"), I(<<"image">>, "inherit_defer"),
              V("IMAGE_INSTALL", "=", <<L("image packagegroup")>>, TRUE), V("IMAGE_INSTALLX", "=", <<L("IMAGE_INSTALL")>>, TRUE), V("IMAGE_FEATURES", "+=", <<>>, FALSE)}
Stmts == IF Mode = "packages" THEN PkgStmts ELSE IF Mode = "kinds" THEN KindStmts ELSE {}
Affixed == {pre \o st \o suf : pre \in {"", "nativesdk-"}, st \in {"foo", "foo-bar", "libx2"}, suf \in {"", "-native", "-cross"}}
Versions == {"", "_1.0", "_1.0_rc1", "_git"}
Paths == IF Mode = "names" THEN {"/R/l/recipes/" \o n \o v \o ".bb" : n \in Affixed, v \in Versions} ELSE {"/R/l/recipes/foo-native_1.0.bb"}
Inc == "/R/l/recipes/i.inc"
Other == "/R/l/recipes/stranger_1.0.bb"
Classes == {"image", "core-image"}
Variables == {"IMAGE_INSTALL", "IMAGE_FEATURES"}
Init == /\ path \in Paths
        /\ files = <<[p |-> path, st |-> <<>>], [p |-> Inc, st |-> <<>>], [p |-> Other, st |-> <<>>]>>
Size == Len(files[1].st) + Len(files[2].st) + Len(files[3].st)
Next == /\ Size < MaxStmts
        /\ \E i \in 1..3, s \in Stmts : (\A j \in 1..3 : s \notin SeqSet(files[j].st)) /\ files' = [files EXCEPT ![i].st = Append(@, s)]
        /\ UNCHANGED path
Spec == Init /\ [][Next]_vars
F == {path, Inc}
VN(fs) == ValidNames(fs, F, path, <<>>, FALSE)
\* both spellings, and the standard ones, always
Spellings == LET n == VN(files) IN /\ Standard(RecipeName(path)) \cup Standard(PNref) \subseteq n
                                   /\ \A x \in n : Replace(x, PNref, RecipeName(path)) \in n
NameParts == /\ ~Contains(RecipeName(path), "_") /\ (BaseRecipeName(path) = RecipeName(path) \/ Contains(RecipeName(path), "-"))
             /\ \E pre \in {"", "nativesdk-"}, suf \in {"", "-native", "-cross"} : RecipeName(path) = pre \o BaseRecipeName(path) \o suf
             /\ BaseRecipeName(path) \in {"foo", "foo-bar", "libx2"}
             /\ HasVersion(path) => StartsWith(NStem(path), RecipeName(path) \o "_" \o RecipeVersion(path))
             /\ PVof(path) = IF HasVersion(path) THEN RecipeVersion(path) ELSE "1.0"
\* a statement elsewhere changes nothing, one more in the files of the recipe takes nothing away
Stranger == [][files[3] # files'[3] => /\ VN(files') = VN(files) /\ Resources(files', F, path, <<>>) = Resources(files, F, path, <<>>)
                                       /\ Dynamic(files', F, path, <<>>) = Dynamic(files, F, path, <<>>)
                                       /\ IsImage(files', F, Classes, Variables) = IsImage(files, F, Classes, Variables)
                                       /\ IsPackageGroup(files', F) = IsPackageGroup(files, F)]_vars
Grows == [][files[3] = files'[3] => /\ Resources(files, F, path, <<>>) \subseteq Resources(files', F, path, <<>>)
                                    /\ IsImage(files, F, Classes, Variables) => IsImage(files', F, Classes, Variables)
                                    /\ IsPackageGroup(files, F) => IsPackageGroup(files', F)]_vars
Patterns == \A d \in Dynamic(files, F, path, <<>>) : Fits(d, d) \/ StartFits(d, RecipeName(path) \o "-dxyz")
Emit == IF Emits THEN PrintT("CASE " \o ToJson([path |-> path, files |-> files])) ELSE TRUE
=============================================================================
