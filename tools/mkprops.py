#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
PA, ST, IT, CO, IN = ["oelint_parser/%s.py" % x for x in ("parser", "cls_stash", "cls_item", "constants", "inlinerep")]

p("C01", "Parsing loses no text and no line number",
  "For every UTF-8 text file added to a stash, the unprocessed raw texts (RealRaw) of the items originating from that file, taken in file order, concatenate to exactly the text of the file. Each item's InFileLine is one plus the number of line breaks in front of its text, so every character of the file belongs to exactly one item at a correct position. This holds for arbitrary, also malformed or truncated, content.",
  ["inputs"], "every text file: all sequences of lines, including malformed constructs, missing final newline, continuation at end of file",
  "The tests look at single attributes of a few fixed recipes and one line-number fixture; no test reassembles a file, and none contains adjacent peeking blocks in all combinations.",
  [PA, ST], [("prepare_lines / prepare_lines_subparser", PA), ("get_items", PA)],
  [("nextbuf", "line peeked by a comment/def block and handed back", PA), ("num", "running line number", PA)],
  ["Item.RealRaw", "Item.InFileLine", "Item.Origin"])

p("C02", "Statement blocks are delimited exactly as written",
  "In a well-formed file each statement becomes one item of its own: a line continued with trailing backslashes up to and including its first uncontinued line, a function from its header through the line closing its brace-balanced body, a python def block up to the next line starting with a letter, digit, '_', '$' or '#', a run of adjacent lines starting with '#', and any other line by itself, whatever its value or comment looks like (also like the header of a function). This holds for every order and adjacency of such blocks and also when the file ends inside or directly behind any of them.",
  ["inputs"], "every sequence of well-formed blocks in any adjacency, and every prefix of such a file",
  "Tests fix a handful of layouts; the defects live in the interplay of neighbouring blocks (a peeked line that itself opens a block) and at end of file.",
  [PA], [("prepare_lines_subparser.iterate", PA), ("drain loop of prepare_lines", PA)],
  [("nextbuf", "peeked line", PA)], ["items of a file: RealRaw, InFileLine, CLASSIFIER"])

p("C03", "Every well-formed statement is classified with its exact parts",
  "Every well-formed bitbake statement - assignment with any of the operators = ?= ??= := += =+ .= =. , flag assignment, shell/python/fakeroot function, def, inherit/inherit_defer/INHERIT, include/require/include_all, export with and without value, addtask with before/after in any order, deltask, unset of a variable or flag, EXPORT_FUNCTIONS, addpylib, addfragments, comment - yields an item of exactly the matching kind whose attributes are exactly the written parts (name, operator, value, flag, task lists, path, ...). This is independent of the optional whitespace bitbake allows around operators and keywords and between the words of a list, and of line continuations in quoted values and lists; a backslash that does not end a line is part of the value. get_items(versioned=True) of a variable leaves out version constraints in parentheses, and get_items(override=...) splits the other text instead of the value. Every item tells whether it is from a bbclass or bbappend by the name of its file. Lines that are no statement (e.g. blank ones) yield plain items.",
  ["inputs"], "all statement kinds x all names, operators, values and formatting variants",
  "Tests check one or two literals per statement kind; which regular expression wins for which spelling is a property of the whole input space.",
  [PA, IT], [("regex table and match order in get_items", PA), ("item classes", IT)], [],
  ["CLASSIFIER and the public attributes and get_items() of every item class"])

p("C04", "Override syntax is split into base name and modifiers",
  "For variable names built from an upper-case base name and any sequence of overrides (append, prepend, remove, class-*, machine, distro or package overrides such as ${PN}-dev), VarName is the base, SubItems are exactly the overrides in order, VarNameComplete reassembles the written name and the no-modifier variant drops exactly append/prepend/remove - with ':' and with '_' as delimiter. The name of a function ends in front of its first append/prepend/remove/class-* override or where it is a function known to CONSTANTS (functions/known); FuncNameComplete is the written name. The class, machine and distro queries as well as IsAppend/AppendOperation/IsImmediateModify answer by membership in that override list. Within one file the new-style delimiter, once seen in a name (or forced by the stash option), applies to all following statements and to none before.",
  ["inputs", "configurations"], "every base name x every override sequence x both delimiters x position of the first new-style name in the file x stash option",
  "Tests use a few literal names; the sticky delimiter depends on the history of the file.",
  [IT, PA], [("Item.extract_sub / extract_sub_func", IT), ("override_syntax_new in get_items", PA)],
  [("override_syntax_new", "sticky new-style flag of a file", PA)],
  ["Variable.VarName, SubItems, VarNameComplete, VarNameCompleteNoModifiers, GetClassOverride, GetMachineEntry, GetDistroEntry, AppendOperation", "Function.FuncName, SubItems"])

p("C05", "Parsing always terminates without an exception",
  "Adding any readable UTF-8 file, a missing file or a directory, followed by Finalize and the queries of the stash, terminates and raises no exception - whatever the content, however the path is spelled (relative, with '..' or doubled slashes), including files truncated at any point, include or inherit statements that form cycles or include the file itself, point to missing files or to directories, and self-referential variables. Whatever the graph of includes looks like, the file added is parsed and linked to what it includes.",
  ["inputs", "programs"], "all file contents (truncations of valid files at every character) and all include graphs including cycles and dangling edges",
  "Tests only hold complete files with acyclic includes.",
  [PA, ST], [("prepare_lines", PA), ("Stash.AddFile", ST), ("Stash.Finalize", ST), ("ExpandTerm seen set", ST)],
  [("files being parsed", "breaks include cycles", ST)], ["Stash.AddFile", "Stash.Finalize", "all getters"])

p("C06", "Inline python is resolved by polarity or preserved verbatim",
  "A supported ${@...} helper call (bb.utils.contains/contains_any/filter, oe.utils.conditional/ifelse/any_/all_distro_features/both_contain/vartrue/less_or_equal/version_less_or_equal) in a value is replaced by its true argument, or by its false argument (empty if it has none) on a stash with negative_inline, and ${@d.getVar('X')} by ${X}, in values as well as in every other statement, also when the call is continued over lines; the text around it and other blocks in the same value are untouched. Every ${@...} block containing none of these calls, delimited by balanced braces, is replaced by one placeholder each, recorded in InlineBlocks in order, kept in RealRaw, and restored to its exact original text (apart from d.getVar references to variables that are set) when the value is expanded with ExpandVar or ExpandTerm - for any number, order and repetition of known and unknown blocks.",
  ["inputs", "configurations"], "all sequences of literal text, known blocks and unknown blocks (with repetition) x both polarities",
  "Tests contain single blocks, mostly with the default polarity; restoring depends on the multiset and order of blocks.",
  [PA, IN, ST], [("inline loop in prepare_lines_subparser", PA), ("inlinerep", IN), ("Stash._ReverseInlineBlock", ST)],
  [("Item.InlineBlocks", "list of (original, replacement)", IT)],
  ["Variable.VarValueStripped, InlineBlocks, Raw, RealRaw", "Stash.ExpandVar", "Stash.ExpandTerm(objref)"])

p("C07", "After Finalize files are linked along include and inherit paths",
  "After Finalize a file is linked to nothing but itself and files reachable from it over include, require, inherit and matching-bbappend edges; it is linked to every file reachable over at most two edges, and to the entire chain where each file includes or inherits just one other file. GetItemsFor, GetLinksForFile and IncludedFrom (exactly the files linked to the item's file, including that file itself) agree on this relation; with nolink only the file's own items are returned. All this holds for every order in which the files were added; queries made before Finalize do not change the links, and calling Finalize again never removes one.",
  ["histories", "programs"], "every include/inherit/append graph, every order of AddFile calls, every interleaving of queries and Finalize calls",
  "test_linking fixes one graph and one order; cached answers and discovery order make the result a property of the history.",
  [ST], [("Stash.AddFile forcedLink", ST), ("Stash.Finalize", ST), ("Stash.__is_linked_to", ST)],
  [("Stash.__map", "file -> directly/transitively linked files", ST), ("Item.IncludedFrom", "files including the item", IT)],
  ["Stash.GetItemsFor(filename, nolink)", "Stash.GetLinksForFile", "Item.IncludedFrom"])

p("C08", "bbappends apply to exactly the recipes their name matches",
  "A bbappend is linked to exactly those recipes in the stash whose file name equals the bbappend's name, where '%' stands for any (also empty) text and every other character, including . + and regular-expression metacharacters, is literal. The result is the same whichever of the two was added first and regardless of their directories. GetLoneAppends lists exactly the (non-empty) bbappends in the stash without such a recipe, GetRecipes exactly the recipes, both sorted.",
  ["inputs", "histories"], "all pairs of recipe and bbappend names over an alphabet with %, ., +, _ and all orders of adding them",
  "Tests use one recipe/bbappend pair in two orders.",
  [ST], [("bbappend matching in Stash.AddFile", ST), ("Stash.GetLoneAppends", ST), ("Stash.GetRecipes", ST)],
  [("Stash.__map", "links", ST)], ["Stash.GetItemsFor(filename=recipe)", "Stash.GetLoneAppends", "Stash.GetRecipes"])

p("C09", "Items are ordered as bitbake would read them",
  "For a recipe, GetItemsFor returns the items in the order bitbake reads them: statements in file order, the content of an included or inherited file directly behind the statement that pulls it in (recursively, several classes of one inherit in the written order), and the items of each matching bbappend with everything it includes behind everything of the recipe, several bbappends in the order they were added. The overall Line numbers are strictly increasing along that order, equal InFileLine up to the first include of a recipe, and the order is the same whether bbappends were added before or after the recipe.",
  ["inputs", "histories"], "every nesting of includes and inherits, every number of bbappends, every order of AddFile (files are not shared between recipes)",
  "test_linenumbers has a flat recipe plus bbappend; nested and repeated includes and several bbappends need the offset arithmetic to compose.",
  [PA, ST], [("includeOffset in get_items", PA), ("line offset of bbappends in AddFile", ST), ("sorting in Reduce", ST)],
  [("Item.Line", "overall line number", IT)], ["Stash.GetItemsFor(filename)", "Item.Line", "Item.InFileLine"])

p("C10", "Classes and bbappends are parsed once but serve everybody",
  "However often and from wherever a bbclass is inherited or added, its items are in the stash exactly once; the same holds for a bbappend that is added repeatedly. Every file that inherits the class - also when it is not the first one - is linked to it, has its path in the Inherit item's FilePaths and sees its items. GetBBClasses, GetConfFiles and GetRecipes report every such file once, sorted.",
  ["histories"], "every sequence of AddFile over recipes, classes inheriting classes and bbappends, with repetition",
  "Tests add one inheritor per stash.",
  [ST, PA], [("seen sets in Stash.AddFile", ST), ("inherit branches of get_items", PA)],
  [("Stash.__seen_classes", "classes parsed", ST), ("Stash.__seen_files", "files parsed", ST)],
  ["Stash.GetItemsFor", "Inherit.FilePaths", "Stash.GetBBClasses", "Stash.GetConfFiles"])

p("C11", "Include, class and layer lookup follows the documented search",
  "An include/require name (after expanding variables by what is known when its line is parsed: the name of the file, the predefined variables and those of files added before) resolves to that path relative to the including file if it exists there, otherwise relative to the root of the layer (nearest directory at or above with conf/layer.conf) of the including file, otherwise to nothing; layers further up are never consulted and directories are no files. Inherited classes are searched that way in classes, then classes-recipe (not for INHERIT), then classes-global; ignored includes and classes are skipped individually. Machine and distro names known to the stash's constants grow by exactly the conf/machine and conf/distro files of the layers of the added files.",
  ["inputs", "configurations"], "all small directory trees: presence of layer.conf, candidate files and directories at each level, nested layers, ignore lists",
  "Tests use one fixed layer tree.",
  [ST, PA], [("Stash.FindLocalOrLayer", ST), ("Stash.GetLayerRoot", ST), ("inherit/include branches of get_items", PA), ("Stash.AddDistroMachineFromLayer", ST)],
  [], ["Stash.FindLocalOrLayer", "Stash.GetLayerRoot", "Include.FileIncluded", "Inherit.FilePaths", "CONSTANTS.MachinesKnown / DistrosKnown"])

p("C12", "Filters return exactly the matching items",
  "GetItemsFor, Reduce and StashList.reduce return exactly the items satisfying all given filters - file (including linked files unless nolink), kind (any of the given classifiers) and attribute (any of the given attributes present and, if values are given, equal to one of them) - each once, ordered by Line. A single value and a list, tuple or set of one value are equivalent, an absent filter does not restrict, applying filters one after another in any order equals applying them at once, and only StashList.reduce modifies its list.",
  ["inputs", "histories"], "all combinations of filter arguments over all small stashes, composed in all orders",
  "Tests use a handful of filter combinations.",
  [ST], [("Stash.Reduce", ST), ("Stash.GetItemsFor", ST), ("StashList.reduce", ST)],
  [], ["Stash.GetItemsFor", "Stash.Reduce", "StashList.reduce"])

p("C13", "Query answers never depend on earlier queries",
  "After any history of AddFile, Append, Remove and Finalize calls interleaved with any queries, every query answers the same as on a fresh stash to which only the modifying calls were applied. In particular an answer given once is never served again after a modification that changes it, and queries do not change the stash.",
  ["histories"], "all interleavings of the modifying operations with all public queries and arguments",
  "Tests build a stash once and query it; stale caches need a query, a modification and the same query again.",
  [ST], [("functools.cache on the queries and Stash._clear_cached", ST)],
  [("caches", "memoised answers per query", ST), ("Stash.__list, __map", "items and links", ST)],
  ["all public query methods of Stash"])

p("C14", "Independent stashes and recipes do not influence each other",
  "Two Stash objects used in any interleaving give the answers each would give alone. Within one stash, the items, links, expansion and name queries of a recipe are unaffected by other recipes with disjoint names and includes - apart from a class parsed earlier on behalf of another recipe, which is shared.",
  ["histories"], "all interleavings of operations on two stashes, and all merges of two unrelated families of recipes into one",
  "Tests use one stash at a time (and a forked process each).",
  [ST], [("per-instance state of Stash", ST), ("class-level functools.cache keyed by instance", ST)],
  [("caches", "shared by all instances", ST)], ["all public query methods of Stash"])

p("C15", "ExpandVar evaluates assignments like bitbake's data store",
  "ExpandVar yields for each variable (keyed by its name with overrides but without append/prepend/remove) the whitespace-separated items of the value obtained by applying all assignments of the file and its linked files in reading order: = and := set, ?= sets if still unset, ??= provides a value only if nothing else did (the last one wins), += and =+ join with a space, .= and =. without, unset drops the assignments that came before. Afterwards appends and prepends are joined without added space in reading order, and finally the items named by remove are dropped wherever they occur as whole items. Variable references and built-in PN, BPN, PV and base-set variables are expanded in the result, and the outcome does not depend on spacing around operators. With nolink only the file's own assignments and unsets count, references are still expanded with the linked files.",
  ["programs"], "all sequences of assignments with all operators and override modifiers over several variables, spread over recipe, includes and bbappends",
  "Tests contain single operator combinations; interplay of weak defaults, deferred append/prepend/remove and file order needs sequences.",
  [ST], [("Stash.ExpandVar", ST)], [("_exp", "intermediate data store", ST)], ["Stash.ExpandVar"])

p("C16", "ExpandTerm substitutes references completely and terminates",
  "When every variable has a single assignment and references are acyclic, ExpandTerm replaces every ${X} (and d.getVar('X') in python code) of a variable set in the file or its linked files by that variable's fully expanded value, base-set variables by their preset, PN/BPN/PV/FILE/THISDIR by the values derived from the file's path, and ${@oe.utils.read_file('path')} by the content of the file (nothing, if there is none), and leaves all other text, unknown references and references listed in spare exactly as they are. Of several assignments the first counts; joins (+= =+ .= =.), appends, prepends and removes do not set a variable. On arbitrary, also cyclic, definitions it terminates and no reference to a set variable outside of spare remains. Expanding twice gives the same result as expanding once.",
  ["programs"], "all reference graphs over a set of variables (acyclic: exact value; cyclic: termination and completeness), all term shapes",
  "Tests check single references and one recursion.",
  [ST], [("Stash.ExpandTerm", ST)], [("seen", "values of variables being expanded", ST)], ["Stash.ExpandTerm"])

p("C17", "SRC_URI entries are decomposed losslessly",
  "For an entry scheme://location;key=value;... GetScrComponents returns exactly the scheme, the location (host and path) and every option with its complete value, in any number and order and with values that contain '='. Known mirror variables such as ${GNU_MIRROR} are replaced by their configured URL first; an entry without options has none, options without '=' are ignored, and a malformed URL yields empty parts instead of an exception. Equal input always gives the same answer.",
  ["inputs", "configurations"], "all entries composed of schemes, locations, option lists and mirror prefixes",
  "Tests hold a few literal URLs.",
  [ST], [("Stash.GetScrComponents", ST), ("CONSTANTS.MirrorsKnown", CO)], [], ["Stash.GetScrComponents"])

p("C18", "Names derived from a recipe are consistent with its path",
  "For a recipe file name_version.ext the guessed name is the text before the first '_', the version the text between the first and second '_' (none if there is no '_'), and the base name is the recipe name without nativesdk- prefix and without -native or -cross suffix; PN, PV (1.0 if none) and BPN expand to these. GetValidPackageNames contains exactly the standard packages (name, -ptest, -src, -dbg, -staticdev, -dev, -doc, -locale) and the items of PACKAGES and PACKAGE_BEFORE_PN of the file and its linked files, in both the literal and the ${PN} spelling (with strippn the prefix is dropped). GetValidNamedResources is the recipe name plus the name= options of all SRC_URI entries, GetPackagesDynamic the expanded non-empty items of PACKAGES_DYNAMIC, and IsDynamicPackage holds iff one of those patterns matches the start of the name.",
  ["inputs"], "all recipe file names over the separators and affixes, all combinations of the variables involved",
  "Tests check a few names each.",
  [ST], [("GuessRecipeName/GuessBaseRecipeName/GuessRecipeVersion", ST), ("GetValidPackageNames", ST), ("GetValidNamedResources", ST), ("GetPackagesDynamic/IsDynamicPackage", ST)],
  [], ["the named query methods of Stash"])

p("C19", "Image and packagegroup recipes are recognised transitively",
  "IsImage is true for a file iff an inherit statement of the file or of a linked file names one of the known image classes (as a whole name, at any position of the list) or one of the known image variables is set in them; IsPackageGroup iff such an inherit names packagegroup. Other recipes in the same stash, comments, similar names and values mentioning the names have no influence.",
  ["inputs", "configurations"], "all placements of inherit lists and variables over recipe, include, class and bbappend, and constant overrides",
  "Tests check one positive fixture per kind.",
  [ST, CO], [("Stash.IsImage", ST), ("Stash.IsPackageGroup", ST)], [], ["Stash.IsImage", "Stash.IsPackageGroup"])

p("C20", "The constants database obeys its add/remove/override algebra",
  "AddConstants appends the given list entries to the lists of the database, creates missing keys and merges dictionaries recursively; RemoveConstants removes exactly the given list entries (every occurrence, nothing if absent) and the given keys of dictionaries; OverrideConstants replaces exactly the given leaves and creates missing ones. All other entries keep their values, the dictionaries passed in are neither modified nor shared with the database, and GetByPath returns exactly the addressed entry or an empty dictionary if there is none.",
  ["histories"], "all sequences of the three operations with nested dictionaries on the same key layout",
  "Tests apply each operation once.",
  [CO], [("Constants.AddConstants/RemoveConstants/OverrideConstants/GetByPath", CO)], [("Constants.__db", "nested dictionary", CO)],
  ["Constants.GetByPath and the named getters"])

p("C21", "The fingerprint identifies what was parsed and nothing else",
  "The FingerPrint of a stash is a function of the parse options and the sequence of parsed files and their contents: it is the same in every process, for every hash seed and regardless of queries, Finalize calls and other stashes. It changes whenever a file with items is added, and two stashes whose parsed content, parse options or order of files differ have different fingerprints.",
  ["inputs", "schedules", "configurations"], "all pairs of (options, file sequence) x hash seeds x interleaved queries",
  "Tests compare fingerprints within one process for one file.",
  [ST, IT], [("Stash.FingerPrint and its update in AddFile", ST), ("Item.__repr__", IT)], [("Stash.__fingerprint", "running sha1", ST)],
  ["Stash.FingerPrint"])

p("C22", "StashList behaves like a list of items",
  "A StashList obtained from a stash behaves like a Python list under append, extend, insert, remove, +=, +, slicing, copying, indexing, assignment, iteration, length and membership, except that append and remove given a list, tuple or StashList apply to each of its elements. Operations on one list (including reduce) never alter the stash, another StashList or the operand.",
  ["histories"], "all sequences of list operations on several lists taken from one stash",
  "Tests only iterate and index results.",
  [ST], [("Stash.StashList", ST)], [("StashList.data", "the items", ST)], ["StashList methods"])

p("C23", "GetFiles finds the files shipped beside SRC_URI users",
  "GetFiles returns, sorted and without duplicates, exactly the existing files whose name matches the given glob pattern in the direct sub-directories of the directories of the files that set SRC_URI (with any operator or override) for the recipe - the recipe itself or files linked to it - and of the files those are linked to; and nothing for recipes without SRC_URI. Hidden files and directories match no wildcard, as usual for glob patterns.",
  ["inputs"], "all small directory trees x placements of SRC_URI over recipe, include and bbappend",
  "Tests use one directory.",
  [ST], [("Stash.GetFiles", ST)], [], ["Stash.GetFiles"])

p("C24", "Safe regular expressions match like the library, under a limit of time",
  "RegexRpl.search, match, split, sub and finditer find exactly the matches the regular expression has under the given flags (as text or compiled), at most count/maxsplit of them where limited; no evaluation takes longer than its timeout (5 seconds if not given), and one that would returns the default given, or the documented default of the function, instead of raising an exception.",
  ["inputs"], "all expressions over characters, sets, sequences, alternatives, repetitions, anchors x texts x flags x limits", "Tests never call these functions directly; the parser uses a few fixed patterns without flags.",
  ["oelint_parser/rpl_regex.py"], [("RegexRpl", "oelint_parser/rpl_regex.py")], [], ["RegexRpl.search", "RegexRpl.match", "RegexRpl.split", "RegexRpl.sub", "RegexRpl.finditer"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
