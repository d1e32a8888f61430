#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

ENC = "sequel/encoding/"
GEN = "cmd/sqlgen/codegen/"
DB = GEN + "templates/db.go.tpl"
OP = GEN + "templates/operator.go.tpl"

prop("C01", "Scalar column values decode to exactly the value they represent",
 "When a database driver delivers a value for a boolean, integer, unsigned integer, float, string, byte-string, character (rune) or time field, in any of the forms that field type accepts (native, text, bytes), decoding succeeds and the field holds exactly the value that was delivered. This holds for fields of defined types and for pointer fields as well. A date or date-time text (with or without fractional seconds, or RFC 3339) decodes to the same instant it spells.",
 ["inputs"], "every supported scalar type, every driver representation of every value of that type",
 "The tests decode one or two hand-picked numbers per width; boundary values, widths, text forms and defined types are sampled, not covered.",
 [ENC+f for f in ("bool.go","int.go","uint.go","float.go","string.go","time.go")],
 [("per-type scanners","sequel/encoding/*.go Scan"),("date-time layout choice","sequel/encoding/time.go parseTime")], ["the field after Scan"])

prop("C02", "A value the field cannot represent is rejected, never altered",
 "Decoding a delivered value that the destination scalar cannot represent (an integer outside the field's range, a number or boolean or date in malformed text, a driver type the field does not accept, a non-native form when the field was asked to be strict) returns an error. It never stores a wrapped, truncated or guessed value, and after an error the field still holds what it held before. (An unsigned 64-bit value beyond the signed range may be delivered, and is accepted, as the signed number of the same bits, the form in which such values are stored.)",
 ["inputs"], "every integer width, and every delivered value outside the set the field represents, over all driver types",
 "No test delivers an out-of-range integer or malformed text to a scalar field.",
 [ENC+f for f in ("bool.go","int.go","uint.go","float.go","time.go")],
 [("range check","sequel/encoding/int.go, uint.go Scan"),("ParseInt/ParseUint bit size","sequel/encoding/int.go, uint.go")], ["error and field after Scan"])

prop("C03", "Decoding fully replaces the field: NULL clears, pointers are fresh",
 "Decoding a database NULL sets a pointer field to nil and any other field to its zero value, whatever it held before; decoding a non-NULL value sets a pointer field to a freshly allocated value and never writes through the old pointer. What a field holds after decoding depends only on the delivered value, and is not changed when the driver later reuses its buffer. (For byte strings, NULL clears to nil and an empty delivery gives an empty one.)",
 ["inputs", "histories"], "every supported field type, sequences of deliveries including NULL into the same destination, and buffer reuse after each",
 "Tests decode into fresh variables; reuse of a destination, aliasing and NULL after a value are barely sampled.",
 [ENC+f for f in ("bool.go","int.go","uint.go","float.go","string.go","time.go","text.go","pointer.go","json.go")],
 [("nil branch and pointer allocation of every scanner","sequel/encoding/*.go")], ["the field after each Scan"])

prop("C04", "Fixed-size byte and rune arrays hold the text or reject it",
 "Decoding text or bytes into a fixed-size byte or rune array stores its bytes (or characters) in order and zeroes the remaining positions; text with more bytes (or characters) than the array is rejected. NULL zeroes the whole array, and text and byte deliveries of the same value give the same result.",
 ["inputs", "histories"], "every array size, every byte/UTF-8 string shorter, equal or longer than it, repeated deliveries into the same array",
 "Tests use one size, fresh arrays and ASCII.",
 [ENC+"byte_array.go", ENC+"rune_array.go"], [("size check and copy","sequel/encoding/byte_array.go, rune_array.go Scan")], ["the array after Scan"])

prop("C05", "List columns stored as JSON round-trip and are valid JSON",
 "Encoding a slice of booleans, integers, unsigned integers, finite floats or UTF-8 strings for a JSON column yields a valid JSON array denoting exactly those elements, and decoding it back gives the same slice (nil for nil, empty for empty). Decoding accepts any JSON rendering of such an array (other whitespace, other escapes) with the same result.",
 ["inputs"], "all element types and widths, all slices and strings, all JSON renderings of them, destinations that held something else",
 "sequel/sqltype has no unit tests; the generated golden files only fix which function is called.",
 ["sequel/sqltype/bool_slice.go","sequel/sqltype/int_slice.go","sequel/sqltype/uint_slice.go","sequel/sqltype/float_slice.go","sequel/sqltype/string_slice.go"],
 [("array parser","sequel/sqltype/string_slice.go parseArray"),("element encoders","sequel/sqltype/*.go Value")], ["Value() text; slice after Scan"])

prop("C06", "PostgreSQL array columns round-trip through PostgreSQL's array syntax",
 "Encoding a slice of booleans, integers, unsigned integers, floats, byte strings or text yields a PostgreSQL array literal that, by PostgreSQL's array grammar, denotes exactly those elements; decoding any literal PostgreSQL would print for such an array (minimal quoting, hex or escape byte strings) gives them back, nil for NULL and empty for empty.",
 ["inputs"], "all element types and widths, all slices, every server rendering of them",
 "sequel/driver/postgres/pgtype has no unit tests and no PostgreSQL server is used.",
 ["sequel/driver/postgres/pgtype/"+f for f in ("array.go","bool_array.go","byte_array.go","float_array.go","int_array.go","string_array.go","uint_array.go")],
 [("array parser","sequel/driver/postgres/pgtype/array.go parseArray"),("element encoders","sequel/driver/postgres/pgtype/*.go Value")], ["Value() text; slice after Scan"])

prop("C07", "Malformed list text gives an error: no crash, hang or invented data",
 "Decoding arbitrary bytes into any list column type (JSON-style or PostgreSQL-style) terminates without panicking. Text that is not a well-formed one-dimensional list of the element type, or that holds an element the type cannot represent (out of range, NULL, wrong kind), returns an error and leaves the destination as it was. Text which is well-formed but spells a number, boolean or string more leniently than the standard does (quoted numbers, leading zeros, blanks) may be accepted, and then only with the value it spells.",
 ["inputs"], "arbitrary byte strings, mutations of valid lists, out-of-range elements, unsupported driver types",
 "No test feeds a malformed list.",
 ["sequel/sqltype/string_slice.go","sequel/sqltype/int_slice.go","sequel/driver/postgres/pgtype/array.go","sequel/driver/postgres/pgtype/int_array.go","sequel/driver/postgres/pgtype/byte_array.go"],
 [("array parser","parseArray"),("ParseInt/ParseUint bit size","scanBytes")], ["error and slice after Scan"])

prop("C08", "JSON, text and binary adapters are faithful inverses",
 "Storing a value through the JSON, text or binary adapter and reading it back yields an equal value, whether the driver returns text or bytes and whether the destination is a value, a pointer or previously held something else. The stored JSON is valid and equivalent to the standard encoding, errors of the value's own codec are reported, and text with anything after the JSON value is rejected. Text and binary adapters hand the value's own codec exactly what is stored.",
 ["inputs", "histories"], "all JSON-representable structures and custom codecs, all destinations' previous contents",
 "Tests store one struct, into fresh destinations.",
 [ENC+"json.go", ENC+"text.go", ENC+"pointer.go", "sequel/types/binary.go"],
 [("JSON valuer/scanner","sequel/encoding/json.go"),("text valuer/scanner","sequel/encoding/text.go"),("pointer forwarding","sequel/encoding/pointer.go"),("binary valuer/scanner","sequel/types/binary.go")], ["Value(); destination after Scan"])

prop("C09", "List marshalling helpers print exact JSON",
 "The list marshalling helpers turn any slice of UTF-8 strings, integers, unsigned integers, booleans or times into a valid JSON array with exactly those elements in that order, and a slice of finite floats into one whose elements are the given values at the requested precision (exactly, when none is requested). The result does not depend on previous or concurrent calls.",
 ["inputs", "schedules"], "all slices of all supported element types; concurrent callers",
 "Tests marshal one ASCII slice per type.",
 [ENC+"marshaler.go", "sequel/strpool/pool.go"], [("list marshallers","sequel/encoding/marshaler.go"),("pooled builders","sequel/strpool/pool.go")], ["returned text"])

prop("C10", "PostgreSQL literals quote any string safely",
 "Quoting any string as a PostgreSQL literal yields one complete string literal that, read by PostgreSQL's lexical rules, denotes exactly that string: nothing in it can end the literal early, and two literals joined by SQL text are read as exactly those two.",
 ["inputs"], "all byte strings without NUL",
 "The unit test quotes a handful of strings.",
 ["sequel/driver/postgres/pgutil/pgutil.go"], [("escaping","pgutil.Quote")], ["returned literal"])

prop("C11", "Accepted model declarations always generate code that compiles",
 "For every package of model declarations the generator accepts, under every dialect and combination of documented options, the files it writes type-check and compile together with the package, in every mix of supported field types, tags, embedded structs, generics, pointers and imported types.",
 ["programs", "configurations"], "random model packages within the documented feature set, for MySQL, PostgreSQL and SQLite and all options",
 "Golden files cover one dialect, default options and fixed programs, and only compare text.",
 [GEN+"generate.go", GEN+"codegen.go", GEN+"package.go", GEN+"sequel.go.tpl", DB, OP, GEN+"dialect/mysql/mysql.go", GEN+"dialect/postgres/postgres.go", GEN+"dialect/sqlite/sqlite.go"],
 [("type mapping","dialect ColumnDataTypes"),("import handling","codegen/package.go"),("method emission","codegen/generate.go")], ["go build of the generated package"])

prop("C12", "Generation is deterministic and idempotent",
 "Generating twice from the same sources and configuration writes byte-identical files, whether or not earlier generated files are present, and whatever the order and concurrency of processing. Generation never changes the user's own source files.",
 ["programs", "configurations", "histories"], "random model packages and configurations; fresh, repeated and stale-output runs",
 "The golden test runs once over fixed inputs.",
 [GEN+"codegen.go", GEN+"generate.go", GEN+"package.go"], [("ordered emission","codegen/generate.go"),("import numbering","codegen/package.go"),("removal of old output before parsing","codegen/codegen.go")], ["bytes of all files"])

prop("C13", "Columns, values and scan targets line up with the declared fields",
 "For every model, the reported column names are exactly the persisted fields' names, in declaration order with embedded structs expanded in place, honouring renames, excluded and unexported fields, and the naming convention. Scan targets correspond one to one to the reported columns, and inserted values to the columns reported for insertion (auto-increment and read-only fields excluded), each position reading or writing exactly its own field; with nil pointers on the way, reading yields NULL instead of a crash and scanning allocates them. (Embedded structs which have generated or hand-written methods of their own are outside of this property.)",
 ["programs", "inputs"], "random struct shapes (nesting, pointers, embedding, tags), random field values",
 "Golden files fix the text for a few structs; no test executes the generated methods against arbitrary field values.",
 [GEN+"generate.go", "cmd/sqlgen/internal/compiler/parser.go", "cmd/sqlgen/internal/compiler/tag.go", "cmd/sqlgen/internal/compiler/compiler.go"],
 [("field walk","internal/compiler/parser.go Parse"),("method emission","codegen/generate.go")], ["Columns(), InsertColumns(), Values(), Addrs(), TableName(), PK()"])

prop("C14", "Every field value survives a write and read back through its column",
 "For every supported field type and every value of it, the value written for a column and delivered back by the database, in the native, byte or text form that database's drivers use, restores an equal field when scanned through the generated targets, for MySQL, PostgreSQL and SQLite alike. Unsigned values above the signed range travel as the signed number of the same bits; a PostgreSQL list of byte strings reads a nil element back as an empty one. A field of a boolean, integer, float, string or byte-sequence type (a defined type, an alias, or a pointer to one; without a codec of its own) is stored as that value itself, not as an encoding of it, so that the database can compare it.",
 ["programs", "inputs", "configurations"], "random models over all supported field types, random values, all three dialects, driver representation forms",
 "No test writes generated values into a database and reads them back except one SQLite example.",
 [GEN+"dialect/mysql/column_type.go", GEN+"dialect/postgres/column_type.go", GEN+"dialect/sqlite/column_type.go", GEN+"generate.go", "sequel/encoding/int.go", "sequel/sqltype/int_slice.go"],
 [("type mapping","dialect ColumnDataTypes"),("valuer/scanner emission","codegen/generate.go")], ["struct after Values -> database -> Addrs"])

prop("C15", "Names follow the configured convention for every identifier",
 "The default table and column names are the Go identifiers converted to the configured convention: snake case (words split at case changes, acronyms and digits kept together as documented), camel case, or Pascal case. The conversion is total, deterministic, keeps the identifier's letters and digits in order, and snake case leaves an already converted name alone.",
 ["inputs", "configurations"], "all exported Go identifiers, three conventions",
 "The unit tests convert a short list of names.",
 ["cmd/sqlgen/internal/strfmt/convert.go", GEN+"generate.go", GEN+"config.go"], [("case conversion","internal/strfmt"),("convention switch","codegen")], ["TableName(), Columns()"])

prop("C16", "Generated single-row statements address exactly the intended row",
 "The generated insert-one, find-by-key and update-by-key statements (and delete-by-key, where the generator emits one) are valid for the dialect, carry exactly one argument per placeholder in order, name exactly the insertable, selectable or updatable columns, and identify the row by its whole primary key (the auto-increment column, when there is one). Key columns, and read-only columns, are never assigned by an update; a model marked with +sql:readonly has no statement that writes.",
 ["programs", "inputs", "configurations"], "random models with single, auto-increment and composite keys, read-only and custom-SQL columns, quoted or bare identifiers, three dialects, random rows",
 "Golden files fix text for MySQL only; placeholder numbering and argument order for other dialects are untested.",
 [GEN+"generate.go"], [("statement builders","codegen/generate.go buildInsertOne/FindByPK/UpdateByPK/DeleteByPK")], ["statements executed on a database"])

prop("C17", "Invalid models are refused and nothing is half-written",
 "A model declaration that cannot be honoured (duplicate column names, two auto-increment keys, an auto-increment on a field that is no integer or a readonly key, a readonly key, an invalid column name, a column type that cannot be stored, recursive embedding, a hand-written method of another signature in strict mode, code that does not parse or type-check) makes generation fail with an error. Generation that fails, for such a reason or because a file cannot be written, never crashes and never leaves a truncated or mixed output file: each output file is either whole or absent.",
 ["programs", "configurations"], "random valid packages with one injected invalid declaration; random tag strings",
 "Only two invalid structs are tested.",
 [GEN+"codegen.go", GEN+"generate.go", "cmd/sqlgen/internal/compiler/parser.go", "cmd/sqlgen/internal/compiler/tag.go"],
 [("validation","internal/compiler/parser.go"),("file writing","codegen/generate.go")], ["error; files on disk"])

prop("C18", "Hand-written model methods are kept and take effect",
 "When a model already declares one of the methods the generator would emit (table name, columns, values, key and so on), or implements the database value interfaces itself, the generator does not redeclare it and the generated code that depends on it uses the hand-written one.",
 ["programs"], "random models with random subsets of hand-written methods",
 "A few golden files cover one or two methods each.",
 [GEN+"generate.go", GEN+"interface.go", "cmd/sqlgen/internal/goutil/function.go"], [("method lookup","codegen/generate.go"),("interface checks","internal/goutil")], ["compiled package; SQL sent"])

prop("C19", "Exactly the selected packages and structs are generated",
 "The source patterns select exactly the directories a shell-style glob (with ** for any depth) would, skipping ignored and non-Go directories, and generation writes output in those directories only. Hidden directories are left out by wildcards, and the directories of the generated helpers are never models. In a selected package, every exported, non-generic struct declaration with at least one persisted field gets its methods (unless it is marked with +sql:ignore) and nothing else does; files that a Go build of the package leaves out contribute nothing. Several patterns select the union.",
 ["inputs", "configurations", "programs"], "random directory trees and patterns",
 "Tests use two fixed patterns.",
 [GEN+"codegen.go", GEN+"path_matcher.go", "cmd/sqlgen/internal/fileutil/fileutil.go"], [("pattern matching","codegen/path_matcher.go, codegen.go")], ["set of generated files"])

prop("C20", "Configuration is resolved predictably from file and defaults",
 "Every documented setting in a configuration file takes effect, and every setting left out keeps its documented default, whatever subset is given; merging configurations lets a later explicit setting win (of booleans, true) and keeps all others. An unreadable, malformed or invalid configuration is reported as an error, and a configuration written by the init command loads back to the same settings.",
 ["configurations", "inputs"], "random subsets and values of all settings, YAML renderings, malformed files",
 "Tests load one file and merge a couple of fields.",
 [GEN+"config.go", "cmd/sqlgen/init.go", "cmd/sqlgen/generate.go"], [("Merge and defaults","codegen/config.go"),("loader","codegen/config.go")], ["loaded configuration; behaviour of generation"])

prop("C21", "Single-row operations behave like a keyed table",
 "For any sequence of insert, find, update, delete and lock operations by primary key issued through the generated helpers, the observable results and the table contents are those of a simple map from key to row: an inserted row is found with equal values and its generated key, an update changes that row only, a delete removes that row only, a lock reads the row and asks for exactly the row lock given (SQLite has none), and a missing row is reported as such. (What a model holds after an operation on it failed is left open.)",
 ["histories", "programs", "configurations"], "random operation sequences over models with single, auto-increment and composite keys, with and without generated statements, three dialects",
 "One SQLite example runs a fixed sequence; PostgreSQL and MySQL paths never execute.",
 [DB, GEN+"generate.go"], [("InsertOne, FindByPK, UpdateByPK, DeleteByPK, LockByPK",DB)], ["returned rows, errors, table contents"])

prop("C22", "Batch insert stores every row once, in order, with its own values",
 "Inserting a batch of any size stores exactly the given rows, each with its own values, or fails without storing a part (what the slice then holds is left open); the reported count equals the batch size, an empty batch is a no-op, and on dialects that return rows each element receives its own generated key. The caller's slice and rows are otherwise unchanged.",
 ["inputs", "programs", "configurations"], "random batches, models with all key kinds, three dialects",
 "Tests insert one fixed batch on SQLite.",
 [DB], [("Insert",DB)], ["table contents, result, the slice"])

prop("C23", "Upsert inserts new rows and resolves conflicts exactly as asked",
 "Upserting one or many rows inserts those whose key is new and, for those that conflict, leaves the stored row alone when asked not to override, or otherwise updates exactly the non-key columns that were not omitted. Other rows never change. A row with a database-generated key conflicts through its other unique columns only, and its model then receives the key of the row stored. (Rows in conflict with two stored rows at once are outside of this property.)",
 ["inputs", "histories", "programs", "configurations"], "random tables, batches with and without conflicts, omitted columns, override modes, key kinds, MySQL and PostgreSQL",
 "Upsert is not executed by any reliable test.",
 [DB], [("UpsertOne, Upsert",DB)], ["table contents, returned rows"])

prop("C24", "Queries return exactly the rows their conditions describe",
 "A select built from the condition operators (comparison, membership, ranges, patterns, null tests, and any nesting of and/or), ordering, limit and offset returns exactly the rows, in the order, that evaluating those conditions on the table's contents gives; an empty group of conditions, or membership in an empty list, behaves as its logical meaning and not as an error. Fetching one row returns the first of them or reports that there is none. Text compares by its bytes; patterns have no backslash.",
 ["inputs", "programs", "configurations"], "random tables, random condition trees, orderings, limits, offsets, column types, three dialects",
 "Tests build a few fixed conditions and compare text.",
 [DB, OP, "sequel/clause.go"], [("operators",OP),("QueryStmt, QueryOneStmt",DB)], ["result rows"])

prop("C25", "Conditional updates and deletes change exactly the matching rows",
 "A conditional update assigns exactly the given columns on exactly the rows its condition selects, and a conditional delete removes exactly those, respecting order and limit where the dialect has them; every other row and column is untouched and the reported count is the number of rows affected.",
 ["inputs", "histories", "programs", "configurations"], "random tables, assignments, condition trees, order and limit, three dialects",
 "Tests run one fixed update and delete.",
 [DB, OP], [("ExecStmt",DB),("Set",OP)], ["table contents, result"])

prop("C26", "Paging visits every matching row exactly once, in order",
 "Paging through a model with any page size, filter and ordering (whose rows do not change meanwhile) yields every matching row exactly once, in the requested order with ties broken by primary key, in pages no larger than the limit; it starts at the given cursor row when there is one, paging backwards is the reverse of paging forwards, and stopping early is clean. A cursor whose row is not there is reported as such, and ties are broken in the direction of the last ordering; the last page may be empty.",
 ["inputs", "histories", "programs", "configurations"], "random tables with ties, filters, multi-column orderings, page sizes, cursors, single and composite keys, three dialects",
 "No test pages.",
 [DB], [("Paginate, Pager.Next, Pager.Prev",DB)], ["sequence of pages"])

prop("C27", "Database failures are reported, never returned as partial success",
 "Whatever database call fails during an operation (starting a statement, executing, fetching any row, closing, reading the result, cancellation), the operation returns that error and never a truncated or fabricated result; the connection is returned to the pool, and later operations work normally. (An error of closing a result that was read to its end may stay in database/sql, which also retries a bad connection by itself.)",
 ["fault_sequences", "histories"], "every operation, a fault at every driver call it makes, all three dialects",
 "No test injects a failure.",
 [DB], [("error returns and row iteration",DB)], ["returned errors, open connections and rows, later results"])

prop("C28", "Operations are independent: no state leaks between statements",
 "Operations running concurrently, or statements being built while others are, give the same statements and results as when each runs alone; values, text or arguments of one never appear in another, and a released statement is empty when reused.",
 ["schedules", "histories"], "random concurrent mixes of operations and statement construction; nested and repeated use of pooled objects; models whose own value methods use the library",
 "Tests are sequential.",
 [DB, "sequel/strpool/pool.go", GEN+"generate.go"], [("pooled statements",DB),("pooled builders","sequel/strpool/pool.go")], ["statements and arguments received by the driver, results"])

prop("C29", "Data travels only as arguments, with placeholders that match them",
 "No row value, condition value or assignment value ever appears in the text of a statement: the text depends only on the shape of the operation, not on its data. Every statement has exactly as many placeholders as arguments, and numbered placeholders refer to them in order, 1 to n.",
 ["inputs", "histories", "programs", "configurations"], "all operations, random hostile values, three dialects",
 "Tests compare a few fixed statements with tame values.",
 [DB, OP, GEN+"generate.go"], [("Var, Vars, placeholders",DB),("statement builders",GEN+"generate.go")], ["text and arguments at the driver"])

prop("C30", "Debug rendering shows the statement with its own arguments in place",
 "Formatting a statement for debugging with the verbose verbs (%+v, %#v) replaces each placeholder by a literal of its own argument, in order, and changes nothing else, whatever the text (string literals, quoted names and comments with placeholder characters in them) and argument values (nil, pointers, defined types, values of driver.Valuer) contain; formatting plainly shows the statement text. Formatting never crashes and never modifies the statement.",
 ["inputs"], "random statements with any number of arguments of every supported type and text containing placeholder characters, three dialects",
 "Tests format one statement with a few arguments.",
 [DB], [("Format, literal rendering",DB)], ["formatted text"])

prop("C31", "Typed column getters name, hold and convert exactly their own field",
 "Every persisted field of a model, and nothing else, has a getter (the configured prefix and the field's name) for use in conditions and orderings. What it returns names the field's column, quoted as configured, holds the value the field has at that time, and converts any value of the field's type (not only its own) to what a model holding that value stores in the column. (Fields below a nil embedded pointer are a known exception.)",
 ["programs", "inputs", "configurations"], "random model packages, field values, dialects, prefixes and quoting",
 "The golden files show the getters of some types; none is ever called.",
 [GEN+"generate.go", "sequel/clause.go"], [("getter emission",GEN+"generate.go generateModels"),("column clauses","sequel/clause.go")], ["ColumnName, Value and Convert of the getter"])

for p in P: print(json.dumps(p, ensure_ascii=False))
