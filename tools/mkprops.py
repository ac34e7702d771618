#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here so that they are easy to edit."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
TS="internal/tson/tson.go"; SE="internal/tson/serialization.go"; TP="internal/tsonpatch/tsonpatch.go"; LG="internal/logument/logument.go"
VS="internal/vssgen/vss.go"; VE="internal/vssgen/extension.go"; VA="internal/vssgen/args.go"

p("C01","TSON text round trip preserves every value and timestamp",
 """Serialising any TSON document (nested objects, arrays and string, number or boolean leaves) to TSON text, compact or
 indented, and parsing that text back yields the same document. Every key, value, element order and timestamp is kept;
 a leaf without a timestamp (negative) comes back without one.""",
 ["inputs"],"All documents up to the stated depth and width, all keys and strings up to the stated length over arbitrary bytes forming valid UTF-8, every finite number, every int64 timestamp, and every member order.",
 "The tests parse four fixed texts and never feed a serialised document back; escapes, exponents, empty containers and order cannot be enumerated.",
 [SE],[("compact writer",SE+":Marshal"),("indented writer",SE+":MarshalIndent"),("parser",SE+":Unmarshal")],["tson.Marshal/MarshalIndent/Unmarshal results"])
p("C02","The TSON parser is total: any bytes give a document or an error",
 """Parsing an arbitrary byte sequence as TSON never crashes: it either returns an error or a document.
 Whatever is accepted can be serialised and parsed again to the same document, and text followed by anything but white space is rejected.""",
 ["inputs"],"All byte sequences up to the stated length, and all texts obtained from valid documents by replacing a stated number of bytes with arbitrary bytes.",
 "The tests try two malformed texts; a parser of untrusted input has to survive every byte sequence.",
 [SE],[("recursive descent parser",SE+":Parser"),("primitive wrapping",SE+":wrapIfPrimitive")],["tson.Unmarshal result or panic"])
p("C03","TSON syntax rules: escapes, numbers, timestamp placement",
 """Text written according to the documented TSON grammar parses to exactly the value it denotes: JSON strings with any legal escape,
 JSON numbers including fractions and exponents, booleans and null mean what they mean in JSON, and a timestamp given after a member name,
 before an array element or around a top-level value is attached to that leaf. A plain JSON text parses to the same values the standard JSON decoder gives, with no timestamp information invented.""",
 ["inputs"],"All texts built from the grammar with symbolic string bytes, digits, exponents, timestamps and white space up to the stated lengths.",
 "The tests use one hand-written document without escapes, exponents, nulls or top-level leaves.",
 [SE],[("string and number scanner",SE+":parseString"),("timestamp scanner",SE+":parseTimestamp")])
p("C04","Compatible-JSON round trip is lossless, timestamps exact to 64 bits",
 """Converting a TSON document to its JSON-compatible form (leaves as value/timestamp pairs) and back yields the same document,
 whatever the key names and for every 64-bit timestamp. The sorted variant denotes the same document.""",
 ["inputs"],"All documents up to the stated depth and width, symbolic keys and strings, all finite numbers, all int64 timestamps.",
 "Only one example file with small timestamps is converted by the tests.",
 [TS],[("JSON form",TS+":ToCompatibleTsonBytes"),("reader",TS+":FromCompatibleTsonBytes"),("sorted form",TS+":ToCompatibleTsonBytesSorted")])
p("C05","Document equality is exact, with and without timestamps",
 """Two documents compare equal exactly when they have the same structure, member names, element order, leaf types, leaf values and timestamps;
 the comparison that ignores timestamps is the same relation with timestamps left out. Neither comparison fails or modifies the documents.""",
 ["inputs"],"All pairs of documents up to the stated depth and width with symbolic keys, values and int64 timestamps.",
 "The tests compare a handful of fixed documents; an equivalence relation is a statement about all pairs.",
 [TS],[("equality",TS+":Equal"),("value equality",TS+":EqualWithoutTimestamp")])
p("C06","JSON to TSON and back is the identity; TSON to JSON drops only timestamps",
 """Importing any JSON value into TSON and exporting it again gives the same JSON value, imported leaves carry the default (absent) timestamp,
 and exporting a TSON document keeps every member, element order and value while removing every timestamp.
 A TSON array of leaves converts to the Go slice of their values in order; an array with anything else in it is an error.
 Neither direction modifies the data handed in.""",
 ["inputs"],"All JSON values and TSON documents up to the stated depth and width over strings, numbers and booleans, with arbitrary member names (including value and timestamp).",
 "The tests convert one example file.",
 [TS],[("import",TS+":FromJson"),("export",TS+":ToJson"),("arrays",TS+":ToArray")])
p("C07","Path lookup follows RFC 6901",
 """Looking up a path in a document returns exactly the value that the JSON-Pointer path denotes: member names are unescaped one path segment at a time
 (~1 is a slash, ~0 is a tilde), array segments are indices within range, and the empty path is the whole document.
 A path that denotes nothing gives an error, and no path or document makes the lookup crash.""",
 ["inputs"],"All documents up to the stated shape with symbolic keys (including empty ones and ones with / and ~), all path strings up to the stated length.",
 "The tests look up seven fixed paths without escapes.",
 [TS],[("lookup",TS+":GetValue")])
p("C08","The latest timestamp of a document is the maximum over its leaves",
 """The latest timestamp reported for a document equals the largest timestamp of any of its leaves, wherever the leaf is nested;
 a container without leaves, or with only absent timestamps, reports 0. It never depends on member order and never crashes on a parsed document.""",
 ["inputs"],"All documents up to the stated shape, all int64 timestamps, all member orders.",
 "One fixed document is tested.",
 [TS],[("maximum",TS+":GetLatestTimestamp")])
p("C09","One patch operation changes exactly its target",
 """Applying an add or replace with a string, number or boolean puts exactly that value and the operation's timestamp at the location its JSON-Pointer path denotes,
 and a remove deletes exactly that member or element; everything else in the document is left unchanged, and the document handed in is itself left as it was.
 An operation that cannot be applied is reported as an error, never as a crash.""",
 ["inputs"],"All documents up to the stated shape, symbolic keys including / and ~ (escaped) and ., arrays of leaves, objects and arrays, all operation kinds, values and int64 timestamps, all paths up to the stated length.",
 "The two tests that apply operations use three fixed paths and fail on the original tree.",
 [TP],[("path handling",TP+":ApplyOperation"),("traversal",TP+":applyTraverse")])
p("C10","Diff then apply reproduces the modified document (values)",
 """For any two documents made of objects, arrays and leaves, applying the generated patch to the original yields the modified document's values,
 member for member and element for element, for every member name. The patch can be generated without failing whenever every added value is a leaf,
 and generation changes neither document.""",
 ["inputs"],"All pairs of documents up to the stated shape with symbolic keys, values and timestamps, including type changes, additions, removals and arrays of different length.",
 "The tests diff one pair of example files.",
 [TP],[("diff",TP+":diff"),("array diff",TP+":compareArray"),("apply",TP+":ApplyPatch")])
p("C11","Timestamp-aware diff then apply reproduces values and timestamps",
 """For any two documents, applying the timestamp-aware patch to the original yields the modified document exactly, timestamps included.
 Every leaf whose timestamp changed is carried by the patch even when its value did not change.""",
 ["inputs"],"All pairs of documents up to the stated shape with symbolic keys, values and int64 timestamps.",
 "No test exercises the timestamp-aware diff directly.",
 [TP],[("timestamp diff",TP+":handleValuesWithTimestamp"),("array diff",TP+":compareArrayWithTimestamp")])
p("C12","Patches are minimal: no operation without a change",
 """A patch generated from two documents contains an operation only for a location whose value really differs (or, for the timestamp-aware patch, whose value or timestamp differs),
 at most one per location, and carries the new value with the new leaf's own timestamp. Documents that differ only in timestamps produce an empty value patch, and identical documents an empty patch of either kind.""",
 ["inputs"],"All pairs of documents up to the stated shape, symbolic keys, values and timestamps.",
 "The existing test only logs the patch it generates.",
 [TP],[("diff",TP+":handleValues"),("diff with timestamps",TP+":handleValuesWithTimestamp")])
p("C13","Patch operations survive their JSON wire form",
 """Serialising any operation or patch to JSON and parsing it back yields the same operation: kind, path, value and full 64-bit timestamp, whatever characters the path or a string value contains.
 The hand-written text form, the pretty-printed form and the standard encoder's form all denote the same operations.""",
 ["inputs"],"All operations with symbolic paths and strings up to the stated length, all finite numbers, booleans and int64 timestamps; patches up to the stated length.",
 "No test parses back what an operation prints.",
 [TP],[("operation text",TP+":Operation.Marshal"),("patch text",TP+":Patch.String"),("reader",TP+":Unmarshal")])
p("C14","Versions grow by one and no stored operation is lost",
 """Storing operations only queues them; appending moves exactly the queued operations, in order, into one new version numbered one above the latest, empties the queue and leaves earlier versions, snapshots and patches untouched.
 Appending with nothing queued changes nothing, and version numbers stay consecutive.""",
 ["histories","inputs"],"All histories of store and append calls up to the stated length, all input forms of the operations, from any base version.",
 "The tests run a few fixed store/append sequences starting at version 0.",
 [LG],[("queue",LG+":Store"),("commit",LG+":Append")])
p("C15","A version's snapshot is the initial document with its patches applied",
 """The snapshot of version k equals the initial document with the patches of versions 1 to k applied in order, whichever snapshots exist already and in whatever order snapshots were requested.
 Asking again gives the same document.""",
 ["histories","inputs"],"All histories up to the stated number of versions and operations, symbolic keys, values and timestamps, all sets of earlier snapshot requests.",
 "The tests ask for one snapshot of one history.",
 [LG,TP],[("snapshot",LG+":Snapshot"),("nearest snapshot",LG+":findLatest"),("apply",TP+":ApplyPatch")])
p("C16","Reading a log never rewrites history",
 """Taking snapshots (by version or time), slices, tracks or histories, printing and testing a log leaves the recorded versions, the recorded patches and every previously taken snapshot unchanged,
 and later edits or changes to a document handed out or handed in do not alter recorded snapshots. (A temporal snapshot may first append what is queued, and a snapshot may be kept for later.)""",
 ["histories","inputs"],"All histories up to the stated size, every query with every symbolic argument, any two queries in sequence.",
 "No test looks at the log after a query.",
 [LG,TP],[("queries",LG+":Track"),("in-place application",TP+":ApplyPatch")])
p("C17","Tracking a version range is complete and replays to the same state",
 """The changes tracked between versions i and j contain, per version in that range and no other, only operations recorded there, in their recorded order,
 leaving out only operations that repeat the value the same path already has within the range; where nothing is removed all such repeats are left out. Applying the tracked changes to the snapshot of version i-1 reaches the same values as the snapshot of version j.""",
 ["histories","inputs"],"All histories up to the stated size, all version ranges, symbolic paths, values and timestamps, operations of kind add, replace and remove.",
 "One fixed log is tracked by the tests.",
 [LG],[("track",LG+":Track")])
p("C18","Tracking a time range returns exactly the changes in that range",
 """The changes tracked between two instants contain only operations recorded with a timestamp in the closed range, under the version that recorded them and in recorded order,
 and leave out only operations that repeat the value the same path already has within the range; where nothing is removed all such repeats are left out.""",
 ["histories","inputs"],"All histories up to the stated size, all int64 ranges and timestamps.",
 "One fixed range over one log is tested.",
 [LG],[("temporal track",LG+":TemporalTrack")])
p("C19","Compaction never changes what any version looks like",
 """Compacting a log at a path removes only operations at or below that path that repeat the value already in force, keeps every other operation and its order,
 leaves the values of every version's snapshot unchanged, and compacting twice is the same as compacting once. Where nothing is removed, every operation there that repeats the value of the operation before it on the same path is dropped.""",
 ["histories","inputs"],"All histories up to the stated size, symbolic operation paths and target path, all values and timestamps.",
 "One fixed log is compacted by the tests and only its print-out is looked at.",
 [LG],[("compaction",LG+":Compact")])
p("C20","History lists every change at a path in version order",
 """The history of a path lists, for each location at or below it that has recorded operations, the initial value (when there is one) followed by every recorded change of its value in version order, leaving out at most operations that repeat the value already in force, and nothing about any other location.
 It works on any log, including sliced ones, without crashing.""",
 ["histories","inputs"],"All histories up to the stated size, symbolic paths and values, logs sliced at any range.",
 "One fixed log; map order makes the result depend on the run.",
 [LG],[("history",LG+":History")])
p("C21","A version slice is a self-contained log of exactly that range",
 """Slicing versions i to j gives a log whose versions are exactly i to j, whose patches are exactly those recorded for them, and whose snapshot of every version in the range has the same content as in the original log.
 The original log is unchanged and the slice accepts further changes.""",
 ["histories","inputs"],"All histories up to the stated size, all ranges, all sets of earlier snapshots.",
 "One fixed range is sliced.",
 [LG],[("slice",LG+":Slice")])
p("C22","A temporal snapshot is the state of the data at that instant",
 """The snapshot at an instant equals the initial document with every recorded operation whose timestamp is not after the instant applied in timestamp order,
 operations with the same timestamp in the order they were recorded. It does not depend on which snapshots happen to exist or on the run, and queued operations count as recorded.""",
 ["histories","inputs"],"All histories up to the stated size, all int64 instants and timestamps, any earlier snapshot requests.",
 "One instant on one log is tested.",
 [LG],[("temporal snapshot",LG+":TemporalSnapshot")])
p("C23","A temporal slice holds exactly the changes of the time range",
 """Slicing a log by time keeps, per version, exactly the operations whose timestamp lies in the closed range, in recorded order, with consecutive versions and a starting snapshot that is the state just before the range, for any range including one without changes.
 The original log is unchanged.""",
 ["histories","inputs"],"All histories up to the stated size, all int64 ranges and timestamps.",
 "Not tested at all.",
 [LG],[("temporal slice",LG+":TemporalSlice")])
p("C24","Setting a value updates the current state; test-and-set records only changes",
 """Setting a leaf changes the current state at exactly that path and queues exactly that operation; other kinds of operation are ignored.
 Test-and-set queues an operation only if the current value at the path differs from the given one or is missing, in which case the value is added.
 Appending makes the queued operations part of the current state.""",
 ["histories","inputs"],"All states up to the stated shape, sequences of set and test-and-set calls up to the stated length, symbolic keys, values and timestamps.",
 "Two fixed values are set.",
 [LG],[("set",LG+":Set"),("test and set",LG+":TestSet")])
p("C25","A generated vehicle state follows from the previous one by its patch",
 """Each generated follow-up vehicle document has exactly the signals of the previous one, each either unchanged, re-stamped or replaced by a value of the same type, and applying the generated patch to the previous document yields the follow-up document, timestamps included.
 With rates 0 nothing changes and the patch is empty.""",
 ["inputs","configurations"],"All vehicle documents up to the stated shape, all random draws, all clock values, all change and maintain rates.",
 "The test checks one seeded generation.",
 [VS],[("next state",VS+":GenerateNext"),("initial state",VS+":Generate"),("leaf walk",VS+":LeafNodes")])
p("C26","Generated dataset files parse back to what was generated and chain",
 """The saved vehicle document parses as TSON to the generated document, the saved patch file parses as a patch that equals the generated patch, and file n of a car is file n-1 with patch n applied.
 Generation runs with the options the program itself supplies.""",
 ["inputs","configurations"],"All documents and patches up to the stated shape, all random draws and clock values, all rates.",
 "The test writes files and never reads them back.",
 [VS,VA],[("file writer",VS+":Save"),("dataset loop",VA+":Generate")])
p("C27","Vehicle metadata stripping and leaf listing are exact",
 """Removing description keys from a vehicle specification removes exactly the listed keys at every level and nothing else, and listing its leaves reports every leaf once under its dotted path with its value.
 Rebuilding a nested document from the listed leaves gives the same document.
 Converting a vehicle document to a Go map gives the same document, as a copy that shares nothing with it.""",
 ["inputs"],"All specifications up to the stated shape, symbolic names, every iteration order.",
 "The tests print the result for the one shipped specification.",
 [VS,VE],[("key removal",VS+":removeKeys"),("leaf walk",VS+":LeafNodes"),("rebuild",VE+":BuildFromLeafNodes"),("to map",VE+":ToMapStringInterface")])
p("C28","The temporal JSON baseline answers queries by the recorded intervals",
 """In the temporal JSON store, a snapshot at an instant contains exactly the values whose recorded interval covers the instant, tracking a path returns exactly the versions whose interval overlaps the range in start order,
 event search returns exactly the start times of tracked versions that satisfy the predicate, an unknown path is an error, and a store built from a list of patches answers at every instant with the state
those patches (in time order, those of one time in list order) had made by then.""",
 ["histories","inputs"],"All stores built from up to the stated number of operations and leaf paths with non-null values and non-overlapping intervals per path, all instants and ranges.",
 "The experiment code has no tests.",
 ["exp/tjson.go"],[("snapshot","exp/tjson.go:getSnapshotForItem"),("track","exp/tjson.go:TemporalTrack"),("builder","exp/tjson.go:FromTSONPatches")])
p("C29","Experiment document updates change only the named field",
 """Updating a field by dotted path in the experiment's JSON and TSON documents sets exactly that field (creating missing objects) and leaves the rest unchanged, in both representations alike,
 and the experiment's value comparison treats equal values as equal whatever their numeric type.""",
 ["inputs"],"All documents of signals up to the stated shape, symbolic path segments, all values.",
 "The experiment code has no tests.",
 ["exp/utils.go","exp/scenario.go","exp/exp_scenario.go"],[("JSON update","exp"),("TSON update","exp")])
p("C30","Simulated sensor values stay within their configured bounds",
 """Every simulated sensor reading lies within the minimum and maximum configured for that sensor, whatever the scenario, the random draws and the previous value,
 and a driving scenario is never left before its minimum dwell time.""",
 ["inputs","histories"],"All sensors and scenarios in the shipped configuration, all random draws, all previous values and clock values.",
 "The experiment code has no tests.",
 ["exp/scenario.go","exp/vss_config.go","exp/exp_scenario.go"],[("sensor model","exp/scenario.go"),("scenario switch","exp/scenario.go")])
p("C31","The web demo serves the dataset and the patched document, and nothing else",
 """The demo's update endpoint sends, byte for byte, the first document or the patch file of the car and number in the query, and for any other query it sends no file's content, no file outside the dataset included.
 Its patch endpoint sends the car's first document with the patches from 2 up to the number asked for applied, timestamps included, and the first document itself when none (or patch 1) is asked for;
 for a car or patch there is not it answers with an error status and does not crash. The dataset the demo generates for itself is one these endpoints serve for every car and file.""",
 ["inputs","histories","fault_sequences"],"All query strings up to the stated length, escapes included; all documents and patch files of the stated shapes; missing files; all datasets the generator makes under the stated draws.",
 "The web demo has no tests.",
 ["web_demo.go"],[("update endpoint","web_demo.go:updateHandler"),("patch endpoint","web_demo.go:patchHandler"),("dataset","web_demo.go:generateVss")])
p("C32","The temporal experiment's two stores answer alike",
 """In the temporal query experiment, at every queried time the logument's snapshot and the temporal JSON store's snapshot both equal the initial document updated by the patches stamped at or before that time,
 applied in stream order, patches of one instant included; the events found above a threshold are exactly the changes to values above it within the range, in time order;
 and the time range covers exactly the patches.
 A saved series of snapshots has one file for the initial state and one for the state after every patch.""",
 ["inputs","histories"],"All patch streams up to the stated length over the stated signals, including several patches of one instant, and all query times and thresholds.",
 "The temporal experiment has no tests.",
 ["exp/exp_temporal.go","exp/utils_temporal.go","exp/temporal_json.go"],[("log construction","exp/utils_temporal.go:createLogumentFromPatches"),("queries","exp/exp_temporal.go"),("snapshot series","exp/utils_temporal.go:CreateSnapshot")])
p("C33","A generated first document has a fitting reading for every signal",
 """The first document generated for a vehicle holds nothing but signals of the specification, every one of them when the whole dataset is asked for, each under its own path with a reading of its datatype
 (one of the allowed values if the specification of a string lists them, 0 to 100 for floating-point and unsigned, -100 to 100 for signed integers, an array of one to five such readings for array types)
 stamped with the time of the generation; it is a document the TSON side accepts.""",
 ["inputs"],"All specifications up to the stated number of signals in nested branches, every datatype of the shipped specification, all random draws and clock readings, both iteration orders.",
 "The tests print one generated document of the shipped specification.",
 [VS],[("first document",VS+":Generate"),("specification",VS+":NewVssJson")])
p("C34","The scenario experiment's documents, patches and counts agree",
 """A run of the driving-scenario experiment updates every sensor exactly at the multiples of its interval and leaves files that agree: the last JSON document is the first one with the recorded JSON patches applied in order,
 the last TSON document the first one with the recorded TSON patches, and both have the same values; each update makes a JSON patch for its time, followed by one for its value exactly if the value changed, and exactly then a TSON patch.
 The reported numbers of updates, changes, repetitions and patches, their growth over time and the timing rows are those of what was recorded.""",
 ["inputs","histories"],"One or two sensors of every kind, category and interval of the menus over the whole simulated time, all random draws of a switching sensor, a menu of draws (changes below and above the tolerance included) for the others, both iteration orders.",
 "The experiment code has no tests.",
 ["exp/exp_scenario.go","exp/utils.go","exp/doc_data_save.go"],[("simulation","exp/exp_scenario.go:runRealisticExperiment"),("saved files","exp/doc_data_save.go"),("documents","exp/utils.go:vehicleDataToJsonDoc")])
p("C35","What an experiment saves is found and read back, and its results are the answers",
 """Of the runs of a scenario the one with the latest time is found, whatever else lies beside it, and it is an error if there is none; the patches read back from it are exactly those saved, in order, with 64-bit timestamps and every kind of value.
Every document, patch and snapshot goes into its own file as the JSON of it; the recorder writes one row with the time and value of every reading of a key sensor and nothing else.
Every query of the temporal experiment leaves its answer in a file of its own and a row with its parameters and sizes; the sixty-one snapshots go evenly from the first patch to the last, each the state at its instant.""",
 ["inputs","histories"],"Two runs (three thorough) at four different seconds in every order with other entries beside, one patch with any timestamp, number, flag or short string and the rest from a menu; ten kinds of file three at a time; every key sensor with two readings (three thorough); two patches (three thorough) for every query; forty-eight whole pipelines.",
 "The experiment code has no tests.",
 ["exp/doc_data_save.go","exp/sensor_data_save.go","exp/exp_temporal.go","exp/utils_temporal.go"],[("files of a run","exp/doc_data_save.go"),("finding and reading back","exp/exp_temporal.go:loadTSONPatches"),("recorder","exp/sensor_data_save.go"),("results","exp/utils_temporal.go:SaveResults")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
