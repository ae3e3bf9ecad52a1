#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md (general part), one section per property
(properties.jsonl, the comments of the harnesses, the oracles below), the
table of planted bugs and tools/design_end.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
# id: (oracle, outside the bounds, measured quick seconds on 8 cores)
D = {
"C01": ("an association list written in the harness (`assoc`), updated with every call", "longer histories over free keys (long ones only with a fixed pattern of keys, `C01_often`, `C01_many`); keys longer than 2 bytes other than the chosen long ones", 26),
"C02": ("a list of (key, value, instant stored, TTL) and the comparison age > limit on unbounded instants", "clock readings outside 1678..2262; durations beyond 2^58 ns except in `C02_clock` and `C02_edges`", 82),
"C03": ("the verdict is a symbolic boolean per key; the oracle removes what was rejected", "re-entrant Validators that call the cache themselves, Validators that panic", 45),
"C04": ("the number of entries of the model and the presence of the key just stored", "Maxitems above 20 with free histories (64 to 300 entries with one perturbation: `C04_large`)", 71),
"C05": ("the model keeps the entries in order of use; the remaining set after each eviction is compared as a set, key by key", "larger caches with free histories (up to 300 entries with one perturbation)", 67),
"C06": ("a search, in the harness, for a sequential order of the operations of the model that explains every result and the final content; a race is found by vector clocks on every access, a deadlock when no goroutine can run", "more goroutines or operations, preemptions beyond the stated numbers, interleavings inside library functions", 111),
"C07": ("an association list", "longer histories over free keys", 14),
"C08": ("a walk over a tree of nodes kept beside the real objects", "index spellings with a sign or superfluous zeroes (left open), keys that contain '>'", 23),
"C09": ("Go's own conversions applied by the harness to the same symbolic value", "GetString of symbolic floats and times (chosen values are used), named integer types and uintptr (left open)", 6),
"C10": ("the list of all (kind, key, value) met in a walk of the object, taken before and after", "deeper nestings than 3 except chains of up to 40 levels", 75),
"C11": ("a Go slice of the records pushed", "Pop and Shift of an empty collection", 15),
"C12": ("the association lists of the records, searched from the last one", "more than 3 records with free keys (up to 60 with one free)", 10),
"C13": ("the plain object on which the same calls are made", "longer histories", 21),
"C14": ("as C06, with the association list or slice as sequential model", "as C06", 63),
"C15": ("a walk through the argument itself", "scalars inside []interface{} (left open)", 26),
"C16": ("texts of the entries built by the harness, sorted", "formatting of symbolic floats and times (chosen values)", 32),
"C17": ("a second parser (`parseFlat`) working byte by byte", "texts of more than 5 free bytes; lines of 64 KiB or more", 86),
"C18": ("two association lists (entries, statuses)", "longer histories", 41),
"C19": ("the model of the table; for documents the entries written by the harness", "characters outside printable ASCII plus chosen ones; documents of more than 2 entries", 51),
"C20": ("as C06", "as C06", 50),
"C21": ("a byte by byte scanner of the documented elements (`element`, `plain`)", "texts of more than 6 (8) free bytes; which of CR, LF after a comment is dropped when both follow", 44),
"C22": ("a counter of open marks", "longer sequences with free text", 6),
"C23": ("a renderer over the list of elements from which the template text was generated (`rendering`)", "values of types with methods of their own other than the chosen ones", 13),
"C24": ("the same renderer", "the prefix form with a dataset or collection as value", 12),
"C25": ("the same renderer", "loops without .none over missing or empty data (left open)", 45),
"C26": ("the same renderer", "conditions that are not met and have no .none (left open)", 13),
"C27": ("the same renderer with scopes (`tbody.find`)", "one template added to two fathers, templates that contain themselves", 11),
"C28": ("the same renderer applied to the model before and after the change", "as C27", 12),
"C29": ("the same renderer; the data are walked before and after", "the loop pseudo field .counter; templates that are modified while they are executed", 24),
"C30": ("loading of the content as string", "contents of other lengths than the chosen ones up to 70 KB; failures of Close", 23),
"C31": ("as C01 to C03", "as C01 to C03", 57),
"C32": ("as C04, C05", "as C04, C05", 93),
"C33": ("as C06", "as C06", 99),
"C34": ("as C07 to C10", "as C07 to C10; numbers from times", 47),
"C35": ("as C11, C12", "as C11, C12", 11),
"C36": ("as C17 to C19 and C30", "the fields of the table are exported: changes made through them are not covered", 76),
"C37": ("as C21 to C23", "as C21 to C23", 38),
"C38": ("as C24 to C26, without search in outer templates", "conditions on datasets and collections (left open)", 34),
"C39": ("as C27, C29", "as C27, C29", 13),
"C40": ("as C16, C41", "!!list!!", 22),
"C41": ("GoString of the data; texts that contain every element name", "!!list!!; the format of the texts", 4),
}
har = {}
for f in sorted(glob.glob(here + "/harness/*/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?:^//.*\n)*)^func ((C\d\d)_\w+)\(\) {", s, re.M):
        c = " ".join(l[2:].strip() for l in m.group(1).splitlines())
        c = re.sub(r"^%s:? *" % m.group(2), "", c)
        har.setdefault(m.group(3), []).append((m.group(2), c.rstrip(".")))
out = [open(here + "/tools/design.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    o, outside, cost = D[i]
    out += ["### %s %s" % (i, p["title"]), "",
        "* Decided by:"]
    out += ["  * `%s`%s" % (n, ": " + c if c else "") for n, c in har[i]]
    out += ["* Oracle: %s." % o,
        "* Bounds: " + p["quantifier"]["text"],
        "* Outside: %s." % outside,
        "* Cost: about %d s for quick." % cost,
        "* Why beyond the tests: " + p["why_tests_cant"], ""]
out += [open(here + "/tools/design_end.md").read().rstrip()]
rows = []
for d in sorted(glob.glob(here + "/seeded/b*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
text = "\n".join(out) + "\n"
text = text.replace("@@SEEDS@@", "\n".join(["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"] + rows))
open(here + "/DESIGN.md", "w").write(text)
