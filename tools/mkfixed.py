#!/usr/bin/env python3
"""Rewrites the list of repaired defects in known_findings.json from the history of /repo."""
import json
import subprocess

PROP = """94e94e6 C05 C02|f92cf9e C05|22358f7 C10 C07|2024485 C08|70a9fe4 C09|6d36f49 C09|aea47bc C13|3977a06 C13|a0902db C07|857ca41 C18
41ce508 C15|67cf551 C06|ad1a981 C06|6751fb1 C15|4d13d81 C15|43a199b C15|143fe92 C17|5b8afbd C22|cd34951 C22|08baf87 C22|369523e C21
289ba4f C11|ec3200e C12 C13|2da02f4 C20|fe82ea3 C20|53e7db2 C20|36fa9c2 C11|c4286ce C05 C11|cf0587a C03|bf38834 C03|1a8ef81 C03|9ec2324 C03
2688207 C03|a8e290f C03|1839117 C03|c3acb79 C03|856085a C04|06d904a C03|1fb8f42 C03|1c33759 C06|75ed41f C06|6f8f8ab C03 C02|9c8d818 C06
2bb4a92 C16 C18|17a0114 C22|7827924 C17|34840f9 C23|8c54dd8 C11|d01b5d0 C23|b583d20 C18 C05|4469186 C24|a56f4dd C24|419b694 C05
fc763ca C03|b7da1b0 C03|6804948 C04|b65ddef C04|78635a9 C12|3001e8a C15|4099283 C05|359b210 C02 C03|aa9485c C02 C03
064ab19 C03|9d9500f C06|4206f79 C06|e5ab47a C16|8600c06 C03|529dfab C05"""
WHAT = {
    "529dfab": 'Finalize does not terminate in reasonable time if a file includes itself (or files include each other) many times: each repetition doubles the list of links',
    "8600c06": 'addtask do_x before a x-after b: x-after was taken for the keyword',
    "3001e8a": "ExpandVar(nolink=True): an unset in a linked file dropped the file's own assignments",
    "4099283": "AddFile, GetLayerRoot and FindLocalOrLayer never returned for //tmp/x.bb",
    "359b210": "A = \"f() {\" or a comment # f() { swallowed the lines behind it",
    "aa9485c": "_A = \"1\" or ${PN}_x = .. directly behind a python function became part of it",
    "064ab19": "A = \"a\\b\" gave the items a and b, a value starting with x behind a continuation was kept together with the word in front",
    "9d9500f": "oe.utils.conditional('A', 'b', 'x \"', ...): the quote at the end of the argument was lost",
    "4206f79": "bb.utils.contains(..., d ) and calls continued over lines were not resolved",
    "e5ab47a": "A ${@oe.utils.read_file('f')} B became the content of the file",
    "fc763ca": "addtask do_x after do_a<tab>do_b: one task 'do_a<tab>do_b'; a continuation in front of before/after lost the list; EXPORT_FUNCTIONS with a continuation reported the mark as function",
    "b7da1b0": "export A = 'b': an export of a variable named \"A = 'b'\" without value",
    "6804948": "_A = \"1\" was reported as A, A__B as A_B, function __f as f",
    "b65ddef": "append_y_append() {: SubItem append_y_append instead of append (the override was looked up from the start of the name)",
    "78635a9": "filtering with FunctionExports.ATTR_FUNCNAME never found an item, the class has no FuncName",
    "94e94e6": "a file ending in a backslash continuation or inside a function header raised an exception",
    "f92cf9e": "A includes B includes A: RecursionError",
    "22358f7": "a second recipe inheriting a class that is in the stash already was not linked to it and saw none of its items",
    "2024485": "bbappend names were taken for regular expressions: a+b_1.bbappend, a_1.0 matching a_1x0, a_1 matching aa_1",
    "70a9fe4": "overall line numbers of nested includes overlapped with those of the statements behind the include",
    "6d36f49": "items of a bbappend were sorted between the items of the recipe's classes",
    "aea47bc": "GetBBClasses, GetPackagesDynamic and IsDynamicPackage returned answers from before AddFile",
    "3977a06": "cached GetItemsFor/GetLinksForFile results survived AddFile/Finalize which changed the links",
    "a0902db": "IncludedFrom listed files that do not include the item",
    "857ca41": "an empty PACKAGES_DYNAMIC made every name a dynamic package",
    "41ce508": "A+=\"x\" and A  ?= \"x\" were evaluated as plain assignments",
    "67cf551": "placeholders written in the file were replaced by inline blocks",
    "ad1a981": "two equal inline blocks in one value: the second was lost",
    "6751fb1": "operators were not applied to values with inline blocks",
    "4d13d81": "remove deleted parts of items",
    "43a199b": "A ??= before A ?= won over it",
    "143fe92": "options of SRC_URI whose value has '=' were dropped",
    "5b8afbd": "StashList.append/extend/remove of a StashList",
    "cd34951": "slices, copies and sums of StashLists were broken",
    "08baf87": "l.extend(l) did not terminate",
    "369523e": "fingerprints depended on the hash seed",
    "289ba4f": "one ignored class in inherit made all of its classes ignored",
    "ec3200e": "items with equal lines and configuration files came in an order depending on the hash seed",
    "2da02f4": "GetByPath below a leaf raised",
    "fe82ea3": "AddConstants/OverrideConstants modified and shared the dictionary of the caller",
    "53e7db2": "RemoveConstants turned sets and tuples into lists, raised for missing keys",
    "36fa9c2": "files in the root of a layer found no includes",
    "c4286ce": "require of a directory raised IsADirectoryError",
    "cf0587a": "unset A:append gave the name A",
    "bf38834": "python functions with upper-case names or annotations were not detected",
    "1a8ef81": "function names such as python_do or fakerootx lost the keyword",
    "9ec2324": "names with characters such as '.' or '+' were not taken for variables",
    "2688207": "include names were cut at blanks and special characters",
    "a8e290f": "classes separated by tabs or several blanks were not resolved",
    "1839117": "no body for functions such as do_x_${PN}",
    "c3acb79": "A = \"x\"<blank> kept a quote in the value",
    "856085a": "class-nativesdk was not an override of functions",
    "06d904a": "export A+=\"x\" gave the name A+",
    "1fb8f42": "task names containing before or after were split there",
    "1c33759": "${@d.getVar('X', True)} became ${X', True}",
    "75ed41f": "${@d.getVar('X') + 'y'} became ${X}",
    "6f8f8ab": "def<tab>f() was no python function",
    "9c8d818": "arguments of inline helpers were split at quoted commas",
    "2bb4a92": "spared references were expanded inside of other values",
    "17a0114": "l.append(l) and l.remove(l) skipped every second item",
    "7827924": "queries and fragments of a location were dropped",
    "34840f9": "GetFiles took special characters of directories for patterns",
    "8c54dd8": "machines and distros of a layer with special characters in its path were not found",
    "d01b5d0": "GetFiles returned directories",
    "b583d20": "IsDynamicPackage raised for PACKAGES_DYNAMIC = \"a++\"",
    "4469186": "RegexRpl.match dropped its flags",
    "a56f4dd": "RegexRpl.finditer raised TimeoutError",
    "419b694": "${@oe.utils.read_file(d, 'X')} on an unreadable file raised",
}
out = []
ids = {p.split()[0]: p.split()[1:] for ln in PROP.splitlines() for p in ln.split("|")}
for c in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h", "febe2fc..HEAD"], capture_output=True, text=True).stdout.split():
    for p in ids[c]:
        out.append(f"fixed: property={p} {c} {WHAT[c]}")
with open("/verif/known_findings.json") as f:
    k = json.load(f)
k["fixed"] = out
with open("/verif/known_findings.json", "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")
print(len(out))
