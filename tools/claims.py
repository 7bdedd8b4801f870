B="Assumes mathematical integers; trusts gocv, go/ssa, the solvers and the listed library contracts."
NOTES['C05']="Proved for all inputs: Value.Format and the row key renderings give the exact text. "+B
NOTES['C06']="Proved for all inputs: Update is the least upper bound in the type lattice, and folding a type into a key keeps that. "+B
NOTES['C10']="Proved for all keys and prefixes: the row key and the column of a transposed key. "+B
NOTES['C15']="Proved for all paths: identity and parent identity are the hash of the path, 0 for the empty one; names and canonical names. "+B
NOTES['C17']="Proved for all lists: routing of output names and the list of inputs. "+B
NOTES['C20']="Proved for all pairs of rows: mapDiff finds each difference and nothing else. "+B
NOTES['C09']="Proved for all key tables and rows: set-up of the tables, headers, projection of rows (given distinct row keys and columns per table). "+B
NOTES['C13']="Proved for all combinations of failing operations: fan-out to the outputs, the CSV, RAW, SQLite and PostgreSQL writers. "+B
NOTES['C11']="Proved for all key tables, rows and limits of at least two: tables and insert statements of both SQL outputs list exactly the cells of consecutive parts. "+B
NOTES['C12']="Proved for all keys and values: the exact text of each statement, with quotes doubled; PostgreSQL values go through encoding/csv (assumed contract). "+B
NOTES['C19']="Proved for all hierarchies and paths: a type is listed once and kept, adding a path or a key keeps everything that was there, and building terminates. "+B
NOTES['C07']="Proved for all key lists and patterns: the selected keys, their positions and their order. "+B
NOTES['C08']="Proved for all keys and configurations: names, sharing of columns and constants. "+B
NOTES['C04']="Proved for all values, rows and key tables: setting a value, joining, constants, clearing, handing over; and the callbacks that report strings, numbers, booleans and nulls. "+B
NOTES['C03']="Proved for all documents, paths and options: the walker's callbacks are called exactly as a recursive definition over the document says, with matching path segments; also the walk to a single key and the dispatch of a line. fastjson is trusted. "+B
NOTES['C16']="Proved for all lines and patterns: where the JSON starts, the prefix groups in order, and the callbacks of a line from its start to its end. "+B
NOTES['C01']="Proved for all lines and buffers, each step of a worker taken alone: rows are handed over in order, one per finished line, with a buffer of its own; success leaves no line behind. Interleavings of workers are a bounded stand-in. "+B
