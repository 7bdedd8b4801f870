#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["flatjsonl/"+f if not f.startswith("cmd/") else f for f in files],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","One output row per input line, in input order, under every schedule",
  "Every processed input line hands exactly one row to every output, rows are handed over strictly in input line order (continuing across inputs), and no two rows are ever handed over at the same time, whatever the number of workers and however they interleave. When flattening reports success, no processed line is left without its row. A row that fails to be written makes flattening report an error.",
  ["schedules","inputs"],"all worker counts, all interleavings of line workers, all line sequences",
  "Tests run small files with one or default workers and sample a few schedules; they compare totals or lengths when concurrent.",
  ["processor.go","reader.go"],
  [("ordered hand-over by expected sequence number","processor.go writeIterator.checkCompleted/complete"),("per-line start/finish callbacks","reader.go Reader.doLine"),("worker semaphore drain","reader.go Reader.Read"),("final wait","processor.go writeIterator.waitPending")],
  [("finished","rows ready but not yet written, by sequence","processor.go writeIterator"),("seqExpected","next sequence to hand over","processor.go writeIterator")],["rows received by the outputs"])
p("C02","Offset and line limits select exactly the requested window",
  "For every input, exactly the lines after the first N (offset) and at most M of them (line limit) are processed, when producing rows, whether or not a key scan happened before. The key scan uses the same window, narrowed further by the scan-only limit when that one is smaller; without limits every line is processed. Processed lines are numbered consecutively from 1 across inputs.",
  ["inputs","configurations"],"all offsets, limits and line counts",
  "Tests use one limit value with a scan and never an offset.",
  ["reader.go","keys.go","processor.go"],
  [("line window in the read loop","reader.go Reader.Read"),("limits for the scan","keys.go Processor.scanAvailableKeys"),("limits for writing","processor.go Processor.iterateForWriters")])
p("C03","Flattening visits every leaf exactly once with its full path and value",
  "For any JSON document every scalar leaf is reported exactly once, in document order, under the dot-joined path from the root with array positions as [i], with the parent's path identified as its prefix and with the value it has in the document. Containers configured to stay JSON are reported once as a single JSON text and not descended into; strings are additionally expanded under .JSON, .URL or the configured format only when extraction applies and the text decodes.",
  ["inputs","configurations"],"all JSON trees, all keep-JSON sets, both extraction modes",
  "Tests cover a handful of fixed documents; depth, width and nesting of strings are unbounded.",
  ["flattener.go"],
  [("recursive walk","flattener.go FastWalker.WalkFastJSON and helpers"),("single key lookup","flattener.go FastWalker.GetKey")])
p("C04","Every value lands in its own column; coalescing and concatenation are exact",
  "A value found under a selected key is placed in that key's column of its own line's row and in no other column or row; values of keys that are not selected change nothing. When several keys share a column the first present value is kept, or, with a concatenation delimiter configured, all values are joined in order of appearance; configured constants always fill their column. Rows start empty: nothing from an earlier line ever shows up in a later row.",
  ["inputs","histories","configurations"],"all value sequences of a line, all lines reusing the same row buffer",
  "Tests check three lines of one fixture; buffer reuse across many lines and workers is not exercised.",
  ["processor.go"],
  [("column placement","processor.go writeIterator.setValue"),("value callbacks","processor.go writeIterator.setupWalker"),("constants and row reset","processor.go writeIterator.complete")])
p("C05","Values are rendered without loss",
  "Strings are written unchanged (cut only to a configured field limit), JSON numbers exactly as they are spelled in the input, booleans as true/false, and absent or null values as empty cells. Sequence numbers are written as exact decimal integers however large they get, in main and in transposed tables alike.",
  ["inputs"],"all values, all sequence numbers",
  "Tests never get past a handful of lines, and use short numbers.",
  ["writer.go","processor.go","reader.go","flattener.go","keys.go"],
  [("value formatting","writer.go Value.Format"),("sequence value","reader.go Reader.doLine"),("index value","keys.go intOrString")])
p("C06","Column types are upper bounds of all observed values, in any order",
  "Combining value types never fails, and the type resulting for a key fits every value seen for it: integers and floats combine to float, any other mix of different scalar types to string, null and containers never override a scalar type. The result does not depend on the order in which the values were seen.",
  ["inputs","schedules","histories"],"all sequences of observed types",
  "Unit tests see few mixed-type keys and only some orders; lines are scanned concurrently in arbitrary order.",
  ["type.go","keys.go"],
  [("type merge","type.go Type.Update"),("per-key merge","keys.go flKey.UpdateType, Processor.scanKey"),("classification of scanned values","keys.go Processor.scanAvailableKeys")])
p("C07","Exactly the requested keys become columns",
  "A key is selected exactly when it is listed for inclusion, or matches an inclusion pattern, or no inclusion was configured at all, and it is neither listed for exclusion nor matched by an exclusion pattern (nor, when zero columns are to be skipped, empty or zero in every scanned line). Selected keys get distinct consecutive positions, with listed keys first in configured order, then scanned keys in the order they were found.",
  ["configurations","inputs"],"all inclusion/exclusion lists and patterns over all key sets",
  "Tests use a few fixed configurations; interactions of lists, patterns and zero-skipping are not covered.",
  ["keys.go"],
  [("selection","keys.go Processor.iterateIncludeKeys, addIncludeKey")],
  [("includeKeys","selected key to position","processor.go Processor")])
p("C08","Keys map to named columns consistently",
  "Every selected key ends up in exactly one existing column, and that column carries the key's name: the configured replacement if there is one, otherwise (with no other renaming requested) the original key. Keys of the main table that end up with the same name share one column and keys with different names never do; a constant fills the column of its own key.",
  ["configurations","inputs"],"all selected key sets and replacement configurations",
  "Tests cover a few fixed replacement maps.",
  ["keys.go"],
  [("column table","keys.go Processor.prepareKeys"),("naming","keys.go Processor.prepareKey")])
p("C09","Rows are projected to tables without loss or mix-up",
  "A main table row holds, column by column in header order, the values of all keys that are not transposed. A transposed table gets, for each line, one row per distinct array index or property name having a value, carrying the line's sequence number, that index or name, and each value under the column of its remaining key; every table has a column for each of its keys, and values never move between tables.",
  ["inputs","configurations"],"all key tables and all rows",
  "Tests use one transposition fixture.",
  ["writer.go","csv_writer.go","raw_writer.go"],
  [("projection set-up","writer.go baseWriter.setupKeys, transposedWriter, initFilteredKeys"),("projection","writer.go baseWriter.receiveRow, receiveTransposedRowValues, receiveRowValues"),("headers","csv_writer.go CSVWriter.writeHead")])
p("C10","Transposed keys split into table, row key and column",
  "For any key below a transposed prefix, the next path segment becomes the row key (a number for an array index, text for a property name) and the rest of the path the column, or the value column when nothing is left; prefix, row key and column put together give the original key back. No key makes this fail.",
  ["inputs","configurations"],"all keys and prefixes",
  "Tests use five fixed prefixes with well-behaved segment names.",
  ["keys.go"],
  [("decomposition","keys.go scanTransposedKey")])
p("C11","Wide tables split identically in schema and in rows",
  "When a table has more columns than allowed, its columns are cut in consecutive parts of the maximum size in order, each part carrying the sequence column, and every row is cut in exactly the same parts, for any column count and limit, in SQLite and in PostgreSQL output. No column, value or part is lost, repeated or misaligned.",
  ["configurations","inputs"],"all column counts and column limits of at least two",
  "No test has more columns than the limit.",
  ["pg_dump_writer.go","sqlite_writer.go"],
  [("PostgreSQL schema and rows","pg_dump_writer.go createTable, insert"),("SQLite schema and rows","sqlite_writer.go createTable, insert")])
p("C12","SQL text never lets data break out of its quotes",
  "Every value and every column name is written into SQL statements inside quotes with embedded quotes doubled, so that any text is stored as that exact text and any key can be a column name. Null and absent values are stored as NULL (an empty text counts as NULL in the CSV data of a PostgreSQL dump). This is about text without NUL characters, which SQL text cannot hold.",
  ["inputs"],"all values and key names",
  "Tests never use quotes in keys and never read SQLite data back.",
  ["sqlite_writer.go","pg_dump_writer.go"],
  [("value quoting","sqlite_writer.go SQLiteWriter.insert"),("identifier quoting","sqlite_writer.go createTable, pg_dump_writer.go createTable")])
p("C13","Output errors are reported and every output is served",
  "Every configured output receives the header setup, every row and the final close even when another output fails, and an error of any output while setting up, writing or closing is reported to the caller. Success is reported only if all outputs succeeded.",
  ["fault_sequences","configurations"],"all sets of outputs and all combinations of failing operations",
  "No test makes a write, flush, commit or close fail.",
  ["writer.go","csv_writer.go","raw_writer.go","pg_dump_writer.go","sqlite_writer.go"],
  [("fan-out","writer.go Writer.SetupKeys, ReceiveRow, Close"),("row errors","csv_writer.go, raw_writer.go, pg_dump_writer.go, sqlite_writer.go ReceiveRow"),("closing","Close methods")])
p("C14","High-cardinality containers collapse without touching other keys",
  "A container that exceeds the limit of distinct child keys (and is not explicitly allowed to) is kept as one JSON column and all keys below it are dropped; containers within the limit stay flattened. Keys that are not below such a container are never dropped, whatever their spelling.",
  ["inputs","configurations"],"all key sets, limits and key spellings",
  "One fixture with unrelated key names is tested.",
  ["keys.go"],
  [("counting","keys.go Processor.collectKeyCardinality"),("collapse","keys.go Processor.prepareScannedKeys")])
p("C15","Keys are identified consistently between scanning and writing",
  "The identity computed for a path while scanning equals the identity computed for the same path while writing, and the parent's identity is that of the parent path; the empty path has the reserved identity 0. Key names are the dot-joined path, compared case-insensitively unless case-sensitive keys are requested.",
  ["inputs"],"all paths and all parent prefixes",
  "Tests would only notice gross mismatches on sampled paths.",
  ["keys.go","flattener.go","processor.go"],
  [("hashing","keys.go hasher.hashBytes, hashParentBytes"),("naming","flattener.go KeyFromPath"),("canonical form","processor.go Processor.ck")])
p("C16","Line prefixes and non-JSON lines are handled without disturbing the row",
  "The JSON part of a line starts at its first opening brace; text before it is only matched against the configured prefix pattern, whose captured groups are reported in order as prefix values. A line without usable JSON still yields its row, holding the prefix and sequence values only, and never stops or corrupts the processing of other lines.",
  ["inputs"],"all lines, with and without prefix pattern",
  "Tests use two well-formed fixtures.",
  ["reader.go"],
  [("prefix handling","reader.go Reader.prefixedLine"),("line dispatch","reader.go Reader.doLine")])
p("C17","Outputs are selected from file names as documented",
  "Each comma-separated output name is routed by its case-insensitive extension: CSV, RAW (both plain, gzip or zstd) or SQLite; the first name of a kind wins and explicitly set outputs are never overwritten. Inputs are the positional names followed by the comma-separated input list, up to the first name starting with a dash.",
  ["configurations"],"all output and input lists",
  "Tests use three fixed output lists.",
  ["flags.go"],
  [("routing","flags.go Flags.PrepareOutput"),("inputs","flags.go Flags.Inputs")])
p("C18","Concurrent key scanning never loses or corrupts keys",
  "While lines are scanned concurrently, the shared key tables are only read and changed by a worker holding the lock, and the lock is released on every way out. Every key found is registered once: its details are kept, its canonical name is listed exactly once, and a later sighting never replaces it or forgets a type or a non-zero value already seen.",
  ["schedules","inputs"],"all interleavings of scanning workers",
  "Tests scan small files; data races need unlucky timing.",
  ["keys.go"],
  [("registration","keys.go Processor.initKey"),("updates","keys.go Processor.scanKey"),("cardinality bookkeeping","keys.go Processor.collectKeyCardinality")],
  [("flKeysList","keys in order of discovery","processor.go Processor"),("canonicalKeys","canonical name to key","processor.go Processor")])
p("C19","Schema and hierarchy views contain every type and path",
  "The JSON schema lists for a key each JSON type seen for it, once; building it terminates for every key set. The key hierarchy contains every added path from the root, segment by segment, and adding a path never removes another.",
  ["inputs"],"all key sets and paths",
  "One fixture is shown as schema.",
  ["flattener.go","keys.go"],
  [("types","flattener.go jsonSchema.AddType, flKey.UpdateType"),("hierarchy","flattener.go KeyHierarchy.Add")])
p("C20","Comparing CSV rows finds every difference",
  "Two rows are reported equal exactly when they have the same columns with the same values; every missing, additional or changed column yields at least one difference naming it.",
  ["inputs"],"all pairs of rows",
  "The comparison tool has no tests.",
  ["cmd/csvequals/main.go"],
  [("row difference","cmd/csvequals/main.go mapDiff")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
