#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts are kept here so they are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    v1 = not files[0].startswith("v2/")
    if v1:
        title = "v1: " + title
    statement = ("Module github.com/webability-go/xcore (v1, the files in the repository root): " if v1 else "Module xcore/v2 (directory v2): ") + statement
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

cache, ds, dsts = "v2/xcache.go", "v2/xdataset.go", "v2/xdatasetts.go"
dc, dcts, lang, tpl = "v2/xdatasetcollection.go", "v2/xdatasetcollectionts.go", "v2/xlanguage.go", "v2/xtemplate.go"

p("C01", "Cache Get returns the last stored value; Count counts the live entries",
  "After any sequence of Set, Get, Del, SetTTL, Clean and Flush calls on an XCache without Validator and without expired entries, Get(key) returns exactly the last value stored under that key and false if the key was stored and not deleted, flushed or evicted since, and (nil, false) otherwise. An operation on one key never changes the presence or value of another key, except evictions by Clean or by reaching Maxitems. Count returns the number of keys that are present.",
  ["histories", "inputs"], "All histories of up to 4 operations (5 thorough) over symbolic keys and values (any aliasing between keys, the empty key included), unlimited and limited caches.",
  "The tests run two fixed scenarios with a handful of literal keys; the interplay of replacing, deleting and re-inserting keys over all histories is never explored.",
  [cache], [("Set/Del/Flush maintain the item map under the mutex", "v2/xcache.go Set, Del, Flush")],
  [("items", "key to entry map", "v2/xcache.go XCache")], ["Get", "Count"])
p("C02", "Expired cache entries are never served and fresh ones always are",
  "Get never returns the value of an entry whose age exceeds the cache's Expire or the entry's own SetTTL duration (0 meaning no limit): it returns (nil, true) and the entry is gone afterwards, so the next Get returns (nil, false). An entry whose age is at most both limits is returned with false. Set on an existing key restarts its age and drops its TTL; SetTTL on an absent key does nothing.",
  ["histories", "inputs"], "All clock readings (symbolic, non-decreasing), all Expire and TTL durations up to 2^58 ns in size including zero and negative, histories up to 4 operations.",
  "The expiry tests sleep for one fixed duration; boundary instants, TTL against Expire combinations and re-insertion are not covered.",
  [cache], [("ctime + duration compared with the current time in Get", "v2/xcache.go Get")],
  [("ctime/ttl", "creation instant and per-entry limit", "v2/xcache.go XCacheEntry")], ["Get", "Count"])
p("C03", "The cache Validator decides what is served and what Verify removes",
  "With a Validator set, Get of a present, unexpired key consults it with that key and the instant at which the entry was last Set; if it answers false Get returns (nil, true) and removes the entry, if it answers true Get returns the value and false. Verify removes exactly the entries that have outlived Expire and those rejected by the Validator, keeps every other entry retrievable, and returns the number of entries it removed.",
  ["histories", "inputs"], "All validator verdicts per key (symbolic), all ages, up to 3 entries, any map iteration order.",
  "Existing tests use one validator that always gives the same answer for one key.",
  [cache], [("Validator call in Get and Verify", "v2/xcache.go Get, Verify")], (), ["Get", "Verify", "Count"])
p("C04", "A limited cache never holds more than Maxitems entries",
  "In a cache with Maxitems > 0, Count is at most Maxitems after every Set, and the entry just stored is always still there; with Maxitems = 0 nothing is ever evicted by Set. This holds for every Maxitems, including values below 10, and whatever mix of Set, Get, Del, Clean and Flush came before.",
  ["histories", "inputs", "configurations"], "Maxitems 0..3 (4 thorough) with all histories of up to 5 operations (6 thorough); Maxitems 0, 1, 2, 5, 9, 10, 11, 12 and 20 filled beyond the limit with a perturbation in between.",
  "The only capacity test fills one cache of a fixed size; small limits, re-insertions and flushes before refilling are not exercised.",
  [cache], [("clean when the limit is reached", "v2/xcache.go Set, mClean")], [("pile", "keys ordered from least to most recently used", "v2/xcache.go XCache")], ["Count", "Get"])
p("C05", "Eviction removes exactly the least recently used entries and reports them",
  "When a Set of a new key makes the cache reach Maxitems, and when Clean(p) is called, first every entry that outlived Expire is removed and then exactly the least recently used of the remaining entries - 10% for Set (more only if needed to respect Maxitems), p% for Clean, rounded down - where storing an entry or reading it successfully counts as use. Clean returns the total number of entries it removed. No other entry is lost.",
  ["histories", "inputs"], "All histories of up to 4 operations (5 thorough) on caches of up to 3 entries, all percentages 0..100, all expiry patterns of up to 3 entries (4 thorough), and caches of 10 to 12 entries with symbolic accesses.",
  "Tests never inspect which entries were evicted nor the value returned by Clean in the presence of expired entries.",
  [cache], [("recency pile moved on Set and Get, trimmed by mClean", "v2/xcache.go removeFromPile, mClean")], [("pile", "recency order", "v2/xcache.go XCache")], ["Clean", "Get", "Count"])
p("C06", "Concurrent use of one cache is race-free and linearizable",
  "Any number of goroutines may call Set, Get, Del, SetTTL, Count, Clean, Verify and Flush on the same XCache: there is no data race, no panic and no deadlock under any schedule. Every value returned by Get was stored under that key and not before a completed overwrite, and afterwards the cache behaves exactly like one on which the same operations had been applied in some sequential order (Verify counting as a separate check of each entry). In particular an entry stored by a Set that has completed is not lost to a concurrent Get of the older, invalidated entry.",
  ["schedules", "histories"], "All interleavings at synchronisation granularity of 2 to 3 goroutines with up to 2 operations each, with symbolic values and ages, on equal or different keys.",
  "Tests are single threaded apart from one stress loop; schedules are never controlled and the race detector is not used.",
  [cache], [("RWMutex around items and pile", "v2/xcache.go")], [("mutex", "guards items and pile", "v2/xcache.go XCache")], ["every public method"])
p("C07", "Dataset Set, Get and Del behave like a map",
  "On an XDataset or XDatasetTS, after Set(k, v) with a key k not containing '>', Get(k) returns v and true until k is Set again or deleted; after Del(k), or if k was never set, Get(k) returns nil and false. Set and Del of one key never affect another key, and a stored nil is reported as present.",
  ["histories", "inputs"], "All histories of up to 4 operations with symbolic keys (any aliasing) and values of any type.",
  "Tests set a fixed set of keys once and read them back.",
  [ds, dsts], [("map assignment and delete", "v2/xdataset.go Set, Get, Del")], (), ["Get"])
p("C08", "Paths a>b>c resolve through nested datasets and collections",
  "Get and every typed getter called with a path id>id>... return exactly what is obtained by walking the path one segment at a time: a segment on a dataset selects that key, a segment on a collection selects the record at that 0-based decimal index. (Index spellings with a sign or superfluous zeroes are not covered.) If any segment is missing, is not a valid index, is out of range, or is applied to a value that is neither a dataset nor a collection, the result is the zero value and false; no path ever panics. A path ending on a collection index returns that record.",
  ["inputs"], "All path strings up to 5 bytes and structured paths up to 4 segments with symbolic segments over nested structures (plain and TS) of depth 3.",
  "Tests use about ten literal paths over one fixed structure.",
  [ds, dsts, dc, dcts], [("split on '>' and recursive Get, Atoi for indexes", "v2/xdataset.go Get")], (), ["Get and typed getters"])
p("C09", "Typed dataset getters convert every numeric kind faithfully",
  "For every stored bool, integer (all widths and signs), float or time value, GetBool, GetInt and GetFloat return the documented conversion and true (non-zero is true, bool is 0/1, integers convert as Go's int()/float64(), floats truncate, a time is its Unix seconds and the zero time is 0/false). GetBool of any other present value is true unless it is nil; GetInt and GetFloat of any other value, and GetTime, the typed slice getters, GetDataset and GetCollection of a value of another type, return the zero value and false. GetString returns the value formatted as by fmt.Sprint (a nil is the empty string) and true, and every getter returns false for an absent key.",
  ["inputs"], "All 64-bit patterns of every numeric kind (floats included), all 2^8..2^64 integers, symbolic bools and times; every getter (GetString of floats and times on chosen values).",
  "Tests check one or two literals per kind; wrong widths, lost signs or swapped kinds for other values go unseen.",
  [ds, dsts], [("type switch chains in the getters", "v2/xdataset.go GetBool, GetInt, GetFloat, GetString")], (), ["GetBool", "GetInt", "GetFloat", "GetString", "GetTime"])
p("C10", "Clone of a dataset or collection is equal and fully independent",
  "Clone of an XDataset, XDatasetTS, XDatasetCollection or XDatasetCollectionTS, however nested, yields the same kind of object answering every getter with equal content. Afterwards no Set, Del, Push, Pop, Shift or Unshift on any dataset or collection reachable from one of them, and no write into a string, bool, int, float or time slice stored in one of them, is visible through the other.",
  ["inputs", "histories"], "All nestings of depth 3 of the four container kinds with symbolic leaves, one symbolic mutation at any node on either side.",
  "Tests clone one literal structure and mutate one field.",
  [ds, dsts, dc, dcts], [("recursive Clone", "v2/xdataset.go Clone, v2/xdatasetcollection.go Clone")], (), ["Get after mutation"])
p("C11", "Collections are deques: Push, Pop, Shift, Unshift, Count and Get(index)",
  "On an XDatasetCollection or XDatasetCollectionTS the records are kept in order: Push appends, Unshift prepends, Pop and Shift remove and return the last and the first record, Count is the number of records, and Get(i) returns the i-th record and true for 0 <= i < Count and (nil, false) for any other index. An operation never changes, duplicates or reorders the other records, and a clone taken before is not altered by later operations.",
  ["histories", "inputs"], "All histories of up to 5 operations; Get with every int index.",
  "Tests perform one fixed sequence of operations.",
  [dc, dcts], [("slice append and reslicing", "v2/xdatasetcollection.go")], (), ["Get", "Count", "Pop", "Shift"])
p("C12", "Collection data lookup gives the last record priority and types its result",
  "GetData(key) returns the value found in the last record (highest index) that contains the key, key paths included, and (nil, false) if no record contains it. GetDataString formats that value as fmt.Sprint does, a nil being the empty string; GetDataBool, GetDataInt, GetDataFloat, GetDataTime and GetCollection return that same value and true when it has exactly that type and the zero value and false otherwise, without looking further. No lookup panics or modifies the collection, and the thread-safe variant answers identically.",
  ["inputs"], "Up to 3 records with symbolic keys, every value kind with symbolic contents, every lookup key.",
  "Tests look up a few literal keys in one collection.",
  [dc, dcts], [("backwards scan", "v2/xdatasetcollection.go GetData")], (), ["GetData*", "GetCollection"])
p("C13", "Thread-safe variants answer exactly like the plain ones",
  "For any sequence of operations, XDatasetTS returns the same results as the XDataset it wraps and XDatasetCollectionTS the same as XDatasetCollection, including Get, all typed getters, String/GoString of datasets, Del and Clone. A zero-value XDatasetCollectionTS is an empty, usable collection.",
  ["histories", "inputs"], "All histories of up to 3 operations with symbolic keys and values of every kind, every getter compared.",
  "The TS tests replay the same literals as the plain tests; no systematic comparison exists and the zero value is not tested.",
  [dsts, dcts], [("delegation under RWMutex", "v2/xdatasetts.go"), ], (), ["every method"])
p("C14", "Concurrent use of thread-safe datasets and collections is safe",
  "Any number of goroutines may call any methods on the same XDatasetTS or the same XDatasetCollectionTS: no schedule leads to a data race, a deadlock, or a panic other than Pop or Shift of an empty collection, and every operation returns a result consistent with some sequential order of the operations. After such a panic is recovered the object is still usable.",
  ["schedules", "histories"], "All interleavings at synchronisation granularity of 2 to 3 goroutines with up to 2 operations each.",
  "Existing tests are single threaded.",
  [dsts, dcts], [("RWMutex", "v2/xdatasetts.go, v2/xdatasetcollectionts.go")], [("mutex", "guards data", "v2/xdatasetts.go")], ["every method"])
p("C15", "NewXDataset and NewXDatasetCollection convert nested maps faithfully",
  "NewXDataset(m) answers, for every path through nested map[string]interface{}, []map[string]interface{} and []interface{} of maps, the same leaf values as m itself, with collections in the original order; NewXDatasetCollection(l) holds one record per map of l, in order. Leaf values of any other type are stored unchanged, the argument is not modified, and later Set or Del calls on the new object (or any nested one) do not change the argument.",
  ["inputs"], "All structures of depth 3 and width 2 over the three container types with symbolic keys and leaves, any map iteration order.",
  "Tests convert one literal map.",
  [ds, dc], [("recursive conversion", "v2/xdataset.go NewXDataset")], (), ["Get"])
p("C16", "String and GoString are complete, deterministic and harmless",
  "String and GoString of datasets, collections and language tables contain every entry exactly once (as key:value, sorted, or in index order for collections), return the same text every time whatever the internal map order, and do not modify the object. Two plain datasets with the same content give the same text.",
  ["inputs"], "All contents of up to 3 entries with symbolic keys and values and every map iteration order.",
  "Tests compare one literal dump; map order is randomised by the runtime so order dependence shows up only by chance.",
  [ds, dc, lang], [("sort.Strings before join", "v2/xdataset.go String")], (), ["String", "GoString"])
p("C17", "Flat language files parse line by line as key=value",
  "Loading a flat language text yields exactly one entry per line that contains '=' with a non-blank key and does not start with '#' or ';': the key is the text before the first '=' and the value the text after it, both with surrounding white space removed; the last line with a key wins. All other lines are ignored, a missing final newline and CRLF line ends are accepted, entries that the text does not mention are kept, and loading does not fail on any text with lines below 64 KiB.",
  ["inputs"], "All texts of up to 5 arbitrary bytes, and structured texts of up to 3 lines with symbolic keys, separators and values.",
  "Tests load two fixed files.",
  [lang], [("bufio scanner, Index of '=', TrimSpace", "v2/xlanguage.go LoadString")], (), ["Get", "GetEntries"])
p("C18", "A language table is a map of entries with per-entry status",
  "On an XLanguage, Get(k) returns the last value Set or loaded for k and \"\" if there is none or it was deleted; GetStatus(k) likewise for SetStatus; Del(k) removes both and nothing else. GetEntries returns exactly the current entries in a fresh map whose modification never affects the table, and vice versa. SetName/GetName and SetLanguage/GetLanguage return what was set.",
  ["histories", "inputs"], "All histories of up to 4 operations with symbolic keys and values.",
  "Tests set and read a few literals.",
  [lang], [("maps under RWMutex", "v2/xlanguage.go")], (), ["Get", "GetStatus", "GetEntries"])
p("C19", "A language table written by GetXML is read back unchanged",
  "For any table whose texts are valid XML characters, loading the text produced by GetXML into a new table restores the same name, language, entries and statuses of entries, whatever characters the ids, statuses and values contain (quotes, <, >, & and ]]> included). Loading an XML language document yields one entry per entry element with its id, character data and status; malformed XML returns an error and the loading constructor returns a nil table.",
  ["inputs"], "Up to 2 entries with symbolic ids, statuses and values of up to 3 bytes over printable ASCII, any map iteration order.",
  "Tests round-trip one literal file without special characters.",
  [lang], [("XML text assembly with CDATA; xml.Unmarshal", "v2/xlanguage.go GetXML, LoadXMLString")], (), ["Get", "GetStatus", "GetName", "GetLanguage"])
p("C20", "Concurrent use of one language table is safe",
  "Any number of goroutines may load, Set, Get, Del, SetStatus, GetStatus, SetName, GetName, SetLanguage, GetLanguage, GetEntries, GetXML, String and GoString on the same XLanguage: no schedule leads to a data race, panic or deadlock, and every result is consistent with some sequential order of the operations (loading a flat text counting as one Set per line).",
  ["schedules", "histories"], "All interleavings at synchronisation granularity of 2 to 3 goroutines with up to 2 operations each.",
  "Existing tests are single threaded.",
  [lang], [("RWMutex", "v2/xlanguage.go")], [("mutex", "guards entries and status", "v2/xlanguage.go")], ["every method"])
p("C21", "Template text outside meta elements is output unchanged; comments vanish",
  "Compiling and executing a template never panics on any input text, and every byte that is not part of a meta element appears unchanged and in order in the output. A %-- ... --% comment (first --% closes it) produces no output, nothing inside it is interpreted, and the text before and after it is kept apart from one line break directly following it. Text that merely resembles a meta element (unclosed, or with characters not allowed in names) is ordinary text.",
  ["inputs"], "All template texts of up to 6 arbitrary bytes (8 thorough), texts of 7 (9) characters of the meta elements, and comments with symbolic contents and surroundings.",
  "Tests render a few literal templates.",
  [tpl], [("one tokenising regular expression and MetaString slices", "v2/xtemplate.go compile")], (), ["Execute"])
p("C22", "Unbalanced sub template marks are an error, balanced ones never are",
  "Loading a template returns an error if and only if its [[name]] and [[]] marks (outside comments) are not properly nested: an end without an open start, or a start never closed. On error the constructor returns a nil template, and loading never panics.",
  ["inputs"], "All sequences of up to 5 pieces out of starts, ends, comments containing marks, and symbolic text.",
  "One test contains one unbalanced template.",
  [tpl], [("stack of start pointers", "v2/xtemplate.go compile")], (), ["NewXTemplateFromString"])
p("C23", "Fields and language entries are injected by value",
  "{{path}} is replaced by the value found in the innermost data level that has that path, formatted as by fmt.Sprint, and by nothing if no level has it or it is nil; the injected text is never interpreted again as template code. ##entry## is replaced by the text of that entry in the language table stored under \"#\" in the root data, in every sub template too, and by nothing if there is no table or no such entry. Every occurrence is replaced and the surrounding text is kept.",
  ["inputs"], "All values of every kind with symbolic contents (including text that looks like template code), symbolic names, nesting depth 3.",
  "Tests inject a few literal words.",
  [tpl, dc, lang], [("MetaVariable and MetaLanguage cases of the injector", "v2/xtemplate.go injector")], (), ["Execute"])
p("C24", "References inject the right sub template with the right data level",
  "&&id&& outputs the sub template id rendered with the current data; &&id:field&& renders it with the dataset in field as an additional innermost level (only for that rendering) and with the current data if field is not a dataset; &&:field:prefix&& renders the sub template whose name is prefix followed by the text of the value of field (a value that is neither a dataset nor a collection), or the sub template prefix if there is none. A reference to an unknown sub template outputs nothing, and no reference panics, even with nil data.",
  ["inputs"], "All combinations of reference form, presence of sub templates, presence and kind of the field, symbolic names and values.",
  "Tests have one template per reference form.",
  [tpl], [("MetaReference case of the injector, push/pop of the data level", "v2/xtemplate.go injector")], (), ["Execute"])
p("C25", "Loops render each record once, in order, with the right variant",
  "@@data:id@@ (or @@id@@) outputs, for each record of the collection in order, exactly one rendering with that record as innermost data level: id.key.N for 0-based position N if it exists, else id.first for the first record, else id.last for the last, else id.even for even 0-based positions, else id; {{.counter}} is the 1-based position. If the data is missing, is not a collection, or is an empty collection, id.none is rendered once if it exists (what happens without id.none is left open). Without a sub template id, or with nil data, the loop outputs nothing.",
  ["inputs", "configurations"], "Collections of 0 to 4 records, every subset of the variant sub templates, symbolic record values; nested loops.",
  "Tests have three literal loops; the precedence of the variants is tested for one collection size.",
  [tpl], [("MetaRange case of the injector", "v2/xtemplate.go injector")], (), ["Execute"])
p("C26", "Conditions select the value variant, the base or the none template",
  "??field:id?? (or ??id??) with field present and not empty outputs exactly one rendering: of id.V if that sub template exists, where V is the value as text (\"array\" for a dataset), else of id; a dataset value becomes the innermost data level for that rendering only. If the field is missing, nil or the empty string, id.none is rendered exactly once if it exists (what happens without id.none is left open). The condition never changes the data level seen by what follows it, and outputs nothing if none of these sub templates exists.",
  ["inputs", "configurations"], "Every kind of value with symbolic contents, every subset of the sub templates id, id.V, id.none, id.array.",
  "Tests have a few literal conditions.",
  [tpl], [("MetaCondition case of the injector", "v2/xtemplate.go injector")], (), ["Execute"])
p("C27", "Sub templates are visible at their own level and below only",
  "A sub template is found by references, loops, conditions and GetTemplate from the template that declares it and from any template nested below, the innermost declaration winning, and never from outside the template declaring it; each of the names separated by | in its declaration designates it. AddTemplate makes a template available under the given name in the same way, replacing a previous one of that name only; of several declarations of a name at one level the last counts. The text between [[name]] and its [[]] appears only where it is rendered.",
  ["inputs", "programs"], "All nestings of up to 3 declarations with symbolic names (any aliasing), references at every level.",
  "Tests cover one nested declaration and one alias.",
  [tpl], [("SubTemplates map and Father chain", "v2/xtemplate.go AddTemplate, GetTemplate")], [("SubTemplates/Father", "scope tree", "v2/xtemplate.go XTemplate")], ["GetTemplate", "Execute"])
p("C28", "A cloned template renders the same and is independent",
  "Clone returns a template that renders the same output as the original for any data, and cloning changes neither the output nor the sub templates of the original. Afterwards adding, replacing or modifying sub templates in one of them, at any level, never changes what the other renders.",
  ["inputs", "histories"], "Templates with up to 3 nested sub templates using every meta element, one symbolic modification at any level of either side.",
  "One test clones a template and renders both once.",
  [tpl], [("recursive copy and Father pointers", "v2/xtemplate.go Clone")], (), ["Execute", "GetTemplate"])
p("C29", "Executing a template is repeatable, side-effect free and concurrent",
  "Execute neither modifies the template nor any data value other than the loop pseudo field \".counter\": executing the same template again with the same data gives the same output. Any number of goroutines may execute the same template at once with their own data, or share a language table, without data race, and each gets the output it would get alone.",
  ["schedules", "inputs"], "Templates using every meta element, 2 goroutines, all interleavings at synchronisation granularity.",
  "Tests execute each template once on one goroutine.",
  [tpl], [("injector works on a private data stack", "v2/xtemplate.go Execute")], (), ["Execute"])
p("C30", "Loading from a file equals loading its content as a string",
  "For templates and language tables (flat and XML), loading a readable file gives exactly the result of loading its content as a string, and a file that cannot be opened or read yields an error, in which case the constructor returns a nil object. A load that fails because of the file, or because of malformed XML, leaves an existing table's entries as they were.",
  ["inputs", "fault_sequences"], "All file contents of up to 3 arbitrary bytes after chosen texts of up to 5 KB; open and read may fail.",
  "Tests load existing files only.",
  [tpl, lang], [("os.Open, ioutil.ReadAll, Close with error checks", "v2/xtemplate.go LoadFile, v2/xlanguage.go LoadFile")], (), ["LoadFile", "LoadXMLFile"])

c1, d1, l1, t1 = "xcache.go", "xdataset.go", "xlanguage.go", "xtemplate.go"
p("C31", "Cache serves the last stored value, never an expired or rejected one",
  "After any history of Set, Get, Del, Clean, Verify and Flush on an XCache, Get(key) returns the last value stored under that key and false if it was not deleted, flushed, evicted, expired or rejected since, and (nil, false) if there is none; operations on one key never affect another one, and Count counts the entries. With Expire (not 0) an entry older than Expire is never served: Get returns (nil, true) and removes it; an entry whose age is at most Expire is served. With a Validator, Get consults it with the key and the instant of the Set: false gives (nil, true) and removes the entry, true serves it. Verify removes exactly the expired and the rejected entries and returns how many.",
  ["histories", "inputs"], "Histories of up to 4 operations (5 thorough) with symbolic keys, values, clock readings and durations up to 2^58 ns; up to 3 entries with symbolic ages and verdicts for Verify, any map order.",
  "The tests run fixed scenarios with literal keys and one sleep.",
  [c1], [("item map, ctime and Validator", "xcache.go Set, Get, Verify")], [("items", "key to entry map", "xcache.go XCache")], ["Get", "Count", "Verify"])
p("C32", "Cache limits hold and evictions remove the least recently used",
  "With Maxitems > 0, Count is at most Maxitems after every Set and the entry just stored is there; with Maxitems = 0 Set evicts nothing. When a Set of a new key makes the cache reach Maxitems, and when Clean(p) is called, first every expired entry is removed and then exactly the least recently used of the remaining ones - 10% for Set (more only if needed to respect Maxitems), p% for Clean, rounded down - where storing and reading successfully count as use. Clean returns the total number of removed entries; no other entry is lost.",
  ["histories", "inputs", "configurations"], "Maxitems 0..3 with histories of up to 5 operations (6 thorough), 0, 1, 2, 5, 9..12, 20 filled beyond the limit; all percentages 0..100, all expiry patterns of up to 3 entries.",
  "One fixed fill of one size is tested; which entries are evicted is not.",
  [c1], [("recency pile", "xcache.go removeFromPile, mClean")], [("pile", "recency order", "xcache.go XCache")], ["Count", "Get", "Clean"])
p("C33", "Concurrent use of one cache is race-free and linearizable",
  "Any number of goroutines may call Set, Get, Del, Count, Clean, Verify and Flush on the same XCache, with or without Validator: no data race, panic or deadlock under any schedule, and results and final content are those of some sequential order of the operations (Verify counting as a separate check of each entry).",
  ["schedules", "histories"], "All interleavings at synchronisation granularity of 2 to 3 goroutines with up to 2 operations each, symbolic values and ages, equal or different keys.",
  "Schedules are never controlled by the tests.",
  [c1], [("Mutex around items and pile", "xcache.go")], [("mutex", "guards items and pile", "xcache.go XCache")], ["every public method"])
p("C34", "Datasets: map behaviour, paths, typed getters and independent clones",
  "XDataset.Set, Get and Del behave like a map for keys without '>' (a stored nil is present). Get and every typed getter with a path id>id>... return what walking it segment by segment gives: a key on a dataset, a 0-based decimal index on a collection; a missing segment, bad index or value that cannot be walked gives the zero value and false, and no path panics. GetBool, GetInt and GetFloat convert bools and every numeric kind faithfully (0 is false, floats truncate, integers as Go's int()/float64()); GetBool of any other non-nil value is true; GetInt and GetFloat of other values except times, and the other getters for a value of another type, give the zero value and false; GetString is fmt.Sprint with \"\" for nil. Clone is equal and fully independent, nested datasets, collections and the string, bool, int, float and time slices included.",
  ["histories", "inputs"], "Histories of 4 operations, paths of up to 4 symbolic segments and 5 raw bytes, all 64-bit patterns of every numeric kind, clones of depth 3 with one change at any node on either side.",
  "Tests use a few literal keys, paths and values.",
  [d1], [("Get by segments, conversion chains, recursive Clone", "xdataset.go")], (), ["Get", "typed getters", "Clone"])
p("C35", "Collections: deque operations and lookup by priority",
  "On an XDatasetCollection Push appends, Unshift prepends, Pop and Shift remove and return the last and first record, Count counts, Get(i) returns record i and true for 0 <= i < Count and (nil, false) otherwise; other records are never changed or reordered and a clone taken before is not altered. GetData(key) returns the value of the last record containing the key (paths included); GetDataString formats it as fmt.Sprint (nil is \"\"); GetDataBool/Int/Float/Time and GetCollection return it and true when it has exactly that type and the zero value and false otherwise. No lookup panics.",
  ["histories", "inputs"], "Histories of up to 5 operations, every int index, up to 3 records with symbolic keys and every value kind.",
  "Tests run one fixed sequence.",
  [d1], [("slice operations, backwards scan", "xdataset.go XDatasetCollection")], (), ["Get", "Count", "GetData*"])
p("C36", "Language tables: flat and XML loading, map behaviour, files",
  "Loading a flat text yields one entry per line with '=', a non-blank key and no leading '#' or ';' (trimmed key before the first '=', trimmed value after it, last one wins), ignores other lines, accepts CRLF and a missing final newline, and keeps entries not mentioned. Loading an XML document sets name and language and adds one entry per entry element with its id and character data; malformed XML gives an error, a nil table from the constructors, and an unchanged existing table. Get(k) returns the last value set or loaded, \"\" if there is none; Set and Del affect only k; SetName/SetLanguage are returned by the getters. Loading a file equals loading its content; a file that cannot be opened or read gives an error, a nil table from the constructors, and an unchanged existing table.",
  ["inputs", "histories", "fault_sequences"], "Texts of up to 4 arbitrary bytes (6 thorough), 2 (3) structured lines, lines up to 65 KB; XML documents of 2 entries in 6 (8) forms with symbolic ids and texts, cut at every byte; histories of 3 (4) operations; open and read failures.",
  "Tests load fixed files.",
  [l1], [("bufio scanner; xml.Unmarshal; os.Open and ReadAll", "xlanguage.go")], (), ["Get", "Entries", "GetName", "GetLanguage"])
p("C37", "Templates: text is kept, marks must balance, fields are injected",
  "Compiling and executing never panics; every byte outside the meta elements is output unchanged and in order, %-- ... --% comments vanish with at most one line break after them, and text that merely resembles an element is kept. Loading fails if and only if [[name]] and [[]] are not properly nested, and then the constructors return nil. {{path}} is replaced by the value in the innermost data level that has it, as by fmt.Sprint, nothing if missing or nil, and never interpreted again; ##entry## by that entry of the language table stored under \"#\" in the root data, nothing if there is none. Loading a template file equals loading its content; a file that cannot be read gives an error.",
  ["inputs", "fault_sequences"], "All texts of up to 6 bytes (8 thorough), 7 (9) characters of the meta elements, sequences of 5 (7) pieces, nesting depth 6 (12), fields with symbolic names and values of every kind.",
  "Tests render a few literal templates.",
  [t1], [("tokenising regular expression, stack of start marks, injector", "xtemplate.go compile, injector")], (), ["NewXTemplateFromString", "Execute"])
p("C38", "Templates: references, loops and conditions render the right template",
  "&&id&& renders sub template id with the current data, &&id:field&& with the dataset in field as additional innermost level for that rendering (current data if it is none), &&:field:prefix&& the sub template prefix + value of field, else prefix; unknown ones output nothing. @@data:id@@ (or @@id@@) renders each record of the collection once, in order, as innermost level, with id.key.N, else id.first, id.last, id.even (even 0-based positions), else id; for an empty collection, missing or other data id.none if it exists; nothing without id or with nil data. ??field:id?? (or ??id??) with a field that is present, not empty and neither a dataset nor a collection renders id.V if it exists (V its text), else id; for a missing, nil or empty field id.none if it exists; without id and id.none nothing. None of them changes the data seen by what follows; none panics, even with nil data.",
  ["inputs", "configurations"], "Every reference form, kind of data and subset of sub templates; collections of 0 to 12 records; nesting depth 3; symbolic names and values.",
  "Tests have one literal template per form.",
  [t1], [("injector cases, push and pop of data levels", "xtemplate.go injector")], (), ["Execute"])
p("C39", "Templates: names of sub templates; execution is pure and concurrent",
  "A sub template is found, by every element and by GetTemplate, in the template that directly declares it and nowhere else; each of its names separated by | designates it; AddTemplate makes a template available under that name, replacing only one of that name. Execute modifies neither the template, nor the data, nor the language table: the same data gives the same output again, and several goroutines may execute one template with their own data and a shared language table without data race, each getting the output it would get alone.",
  ["inputs", "programs", "schedules"], "Names of up to 3 bytes (5 thorough), 4 (6) aliases, 2 (3) additions at any level; templates with every element, 2 goroutines, up to 2 (3) preemptions.",
  "Tests cover one alias and single-threaded execution.",
  [t1], [("SubTemplates map; injector with a private data stack", "xtemplate.go AddTemplate, GetTemplate, Execute")], [("SubTemplates", "names to templates", "xtemplate.go XTemplate")], ["GetTemplate", "Execute"])

p("C40", "String and GoString are complete and stable; the debug element dumps",
  "String and GoString of datasets, collections and language tables contain every entry exactly once (as key:value, sorted, or in index order for collections), return the same text every time whatever the internal map order, and do not modify the object; two datasets with the same content give the same text. String and GoString of a template contain every element of its top level, do not vary, do not modify it and do not panic on an empty template. !!dump!! outputs the GoString of the root data wherever it stands, in sub templates too; any other word except list, and any debug element without data, outputs nothing.",
  ["inputs"], "Up to 2 entries (3 thorough) with symbolic keys and values in every map order, 0 to 3 records, templates with any subset of the elements.",
  "Tests compare one literal dump; map order is randomised by the runtime.",
  [d1, l1, t1], [("sort.Strings before join; MetaDump case", "xdataset.go String, xtemplate.go injector")], (), ["String", "GoString", "Execute"])
p("C41", "Template texts are stable and the debug element dumps the root data",
  "!!dump!! outputs exactly the GoString of the root data passed to Execute wherever it stands, in sub templates with their own data level too, and changes nothing; any other word except list, and any debug element without data, outputs nothing. String and GoString of a template contain every element of its top level, give the same text every time and for every template compiled from the same text, do not modify it and do not panic on an empty template.",
  ["inputs"], "Symbolic data of every container kind, debug elements at three places, templates with any subset of the elements with symbolic names.",
  "No test uses the debug element or the text of a template beyond one literal.",
  [tpl, ds], [("MetaDump case of the injector; String", "v2/xtemplate.go injector, String, GoString")], (), ["Execute", "String", "GoString"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
