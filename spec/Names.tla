-------------------------------- MODULE Names --------------------------------
(* What the file name of a recipe says *)
EXTENDS Text
NBase(p) == LET O == Occurrences(p, "/") IN IF O = {} THEN p ELSE From(p, MaxOf(O) + 1)
NDir(p) == LET O == Occurrences(p, "/") IN IF O = {} THEN "" ELSE Upto(p, MaxOf(O) - 1)
NStem(p) == LET b == NBase(p)
                O == Occurrences(b, ".")
            IN IF O = {} \/ MaxOf(O) = 1 THEN b ELSE Upto(b, MaxOf(O) - 1)
Parts(p) == SplitAt(NStem(p), "_")
RecipeName(p) == Parts(p)[1]
HasVersion(p) == Len(Parts(p)) > 1
RecipeVersion(p) == Parts(p)[2]
PVof(p) == IF HasVersion(p) /\ RecipeVersion(p) # "" THEN RecipeVersion(p) ELSE "1.0"
CutPrefix(s, x) == IF StartsWith(s, x) /\ Len(s) > Len(x) THEN From(s, Len(x) + 1) ELSE s
CutSuffix(s, x) == IF EndsWith(s, x) /\ Len(s) > Len(x) THEN Upto(s, Len(s) - Len(x)) ELSE s
BaseRecipeName(p) == CutSuffix(CutSuffix(CutPrefix(RecipeName(p), "nativesdk-"), "-native"), "-cross")
=============================================================================
