#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Migration turns the old schema into the new schema",
 "Whenever a diff of two schemas succeeds, executing the emitted statements in order on a MySQL database that holds the old schema leaves exactly the new schema's tables, each with exactly the new schema's columns (every attribute of the definition) and exactly the new schema's keys, indexes and foreign keys (kind, name or symbol, type, columns with prefix length and direction, parser option, and referenced table, columns, match and actions); newly created tables also carry the new schema's table options. "
 "Options of a table present in both schemas are not migrated, and a diff may fail only for input that does not parse or when an index that has neither a name nor a constraint symbol would have to be dropped.",
 ["inputs", "schedules"],
 "for every pair of well-formed schemas in the supported grammar, and for every order in which the sets of tables, columns and indexes happen to be iterated",
 "TestDiff compares the text for about 20 hand-picked pairs that differ in one place; set iteration order is random and pairs that differ in several ways at once, or in rarely used attributes, are never executed against a model of the server.",
 ["diff/diff.go", "format/format.go", "model/index.go", "model/reference.go", "model/table.go"],
 [("set differences of table/column/index IDs, then drop/create/alter phases", "diff/diff.go: Statements, dropTables, createTables, alterTables"),
  ("index identity as a digest of its definition", "model/index.go: (*index).ID, model/reference.go: (*reference).ID"),
  ("definitions rendered by the formatter", "format/format.go")],
 [("server schema", "tables, columns, indexes held by the database", "spec/Server.tla: db")],
 ["text written to dst by diff.Statements/Strings/Files/Sources"])

prop("C02", "Every migration statement can be executed when its turn comes",
 "Executed in the emitted order starting from the old schema, with foreign key checks between tables off, no statement of a successful diff is refused by the server: none drops or changes something that does not exist at that point, creates or adds something that already exists, positions a column after one that is not there, names a missing column in a key, removes the last column of a table, or drops an index or column that an existing foreign key still needs. "
 "In particular foreign keys are dropped before and added after the indexes that support them, and columns are added before the keys that use them.",
 ["inputs", "schedules"],
 "for every pair of well-formed schemas and every set iteration order, at every position of the emitted script",
 "The tests compare fixed output text for single edits; whether a script is executable at every step depends on the combination of edits and on random iteration order, which text comparison on one run does not exercise.",
 ["diff/diff.go"],
 [("phase order drop indexes, drop columns, add columns, change columns, add indexes", "diff/diff.go: alterTables"),
  ("lazy lists that put foreign keys first when dropping and last when adding", "diff/diff.go: dropTableIndexes, addTableIndexes"),
  ("dependency order of added columns", "diff/diff.go: addTableColumns")],
 [("server schema", "tables, columns, indexes held by the database after each statement", "spec/Server.tla: db")],
 ["text written to dst by diff.Statements"])

prop("C03", "Migration leaves everything both schemas share untouched",
 "A diff never drops, renames or re-creates a table that both schemas declare, never drops or re-adds a column that both declare in such a table, and never drops a key, index or foreign key whose definition is the same in both. "
 "It emits no statement at all for a table, column or index whose definition is the same in both schemas, and at most one statement for each column that changed.",
 ["inputs", "schedules"],
 "for every pair of well-formed schemas and every set iteration order",
 "Losing data by dropping a shared column or table still reaches the target schema and only shows for particular combinations; the tests only look at about 20 single edits.",
 ["diff/diff.go", "model/table.go", "model/table_column.go", "model/index.go"],
 [("identity by ID, equality of normalized definitions", "diff/diff.go: newDiffCtx, newAlterCtx, alterTableColumns"),
  ("normalization before comparing", "model/table.go: Normalize")],
 [("warranted statements", "which statements the difference old/new calls for", "spec/Migration.tla: Touches, LeavesAlone")],
 ["text written to dst by diff.Statements"])

prop("C04", "Equivalent schemas have an empty difference",
 "Diffing two texts that declare the same schema produces no schema-changing statement, whatever the order of tables and of index declarations, keyword case, layout and comments, quoting of names, and spelling: type synonyms, omitted or explicit default display widths, omitted or explicit NULL and DEFAULT NULL, quoted or bare numeric defaults, boolean default words, inline or separate primary and unique keys, KEY or INDEX, a foreign key's symbol-named index declared or left implicit, and optional words and signs. "
 "In particular the diff of any schema with itself, and with its own formatted or linted form, is empty.",
 ["inputs"],
 "for every schema in the supported grammar and every pair of spellings of it",
 "One long test case samples one pair of spellings; equivalence has to hold for every combination of attributes and every spelling, including declaration orders the test does not contain.",
 ["model/table.go", "model/table_column.go", "model/columns_gen.go", "model/index.go", "parser.go", "diff/diff.go"],
 [("normalization of tables and columns", "model/table.go: Normalize, model/table_column.go: Normalize, NativeLength"),
  ("definition comparison", "diff/diff.go: alterTableColumns; model/index.go: ID")],
 [("canonical schema", "normal form of a declared table", "spec/Canon.tla: CanonTable")],
 ["text written to dst by diff.Strings"])

prop("C05", "Added columns end up where the new schema puts them",
 "When the columns two versions of a table share appear in the same relative order in both, executing the emitted statements leaves all columns of the table in exactly the order of the new schema. "
 "Every ADD COLUMN states its position: FIRST for the new first column, otherwise AFTER its immediate predecessor in the new schema.",
 ["inputs", "schedules"],
 "for every placement of added and dropped columns among the shared ones, and every map iteration order inside the planner",
 "Three test cases add runs of columns at one place; mixes of several runs, drops between them and map iteration order are not covered.",
 ["diff/diff.go", "model/table.go"],
 [("before/next graph and three passes over added columns", "diff/diff.go: addTableColumns, writeAddColumn"),
  ("column position lookups", "model/table.go: LookupColumnBefore, LookupColumnOrder")],
 [("column order", "sequence of columns of each table on the server", "spec/Server.tla: cols")],
 ["text written to dst by diff.Statements"])

prop("C06", "Parsing keeps exactly what was declared",
 "For every accepted input the parsed statements are exactly the declared tables, in order, and each table holds exactly the declared columns in order with every declared attribute, every declared key, index and foreign key with all its parts, and every table option with its value, in normalized form; nothing is lost, invented, or attached to another column, index or table. "
 "Statements the parser documents as ignored (CREATE DATABASE, DROP, SET, USE, comments, empty statements) contribute nothing and do not affect their neighbours.",
 ["inputs"],
 "for every sequence of statements derivable from the supported CREATE TABLE grammar, with every combination and order of clauses the grammar allows",
 "The 50 parser tests take one path through most grammar rules; combinations and orders of clauses, and clauses the formatter does not print, are not sampled.",
 ["parser.go", "lexer.go", "tokens_gen.go", "model/table.go", "model/table_column.go", "model/index.go", "model/reference.go"],
 [("recursive descent over the token stream", "parser.go"), ("keyword table", "tokens_gen.go"), ("normalization on completion of a table", "parser.go: parseCreateTable")],
 [("parser state", "control state and the table, column, index under construction", "spec/Grammar.tla: st")],
 ["model.Stmts returned by Parser.Parse/ParseString/ParseFile"])

prop("C07", "Formatted SQL parses back to the same schema",
 "For every schema the parser accepts, and for every indentation, the SQL the formatter prints for a table is accepted by the parser, is read by MySQL's lexical and CREATE TABLE rules as the same table (names, quoted text, options and all attributes included), and parses back to an identical model. "
 "Formatting that model again prints the identical text.",
 ["inputs", "configurations"],
 "for every table in the supported grammar, including names and text values containing quotes, backquotes, backslashes and non-ASCII characters, and every indent option",
 "Tests compare the printed text of a few dozen tables with harmless names and never feed printed text back to the parser.",
 ["format/format.go", "parser.go", "lexer.go", "internal/util/util.go"],
 [("printing of each model type", "format/format.go"), ("quoting helpers", "internal/util/util.go: Backquote; lexer.go: unescapeQuotes")],
 [("denoted table", "the table a token sequence denotes", "spec/Grammar.tla")],
 ["format.SQL output", "Parser.Parse of that output"])

prop("C08", "Normalization is canonical, idempotent and does not touch its input",
 "Normalizing a column or table yields its canonical form: type synonyms resolved, implied display width and precision filled in, explicit NULL dropped, implied DEFAULT NULL added, numeric defaults unquoted, boolean default words turned into numbers, inline primary and unique keys moved to table indexes, the symbol-named index of a foreign key added once; everything else is preserved. "
 "Normalizing again changes nothing and reports no modification, and the receiver (and anything it shares) is left as it was.",
 ["inputs", "histories"],
 "for every column type combined with every subset of attributes, and every table built from such columns, keys and foreign keys in any declaration order",
 "Eight columns are tested for the value of the result only; idempotence, the modified flag, non-mutation and tables are not tested.",
 ["model/table_column.go", "model/table.go", "model/columns_gen.go", "model/index.go"],
 [("column normalization", "model/table_column.go: Normalize, NativeLength, Clone"), ("table normalization", "model/table.go: Normalize"), ("synonym table", "model/columns_gen.go: SynonymType")],
 [("canonical form", "normal form operators", "spec/Canon.tla: CanonCol, CanonTable")],
 ["model.TableColumn.Normalize", "model.Table.Normalize"])

prop("C09", "Lexing covers the input exactly and layout never matters",
 "The token stream covers the whole input from its first to its last byte without gap or overlap, each token carrying the byte offset and line where it starts, keywords recognized in any letter case, and quoted tokens decoded (the doubled own quote becomes one quote, and inside ' or \" so does a quote of either kind after a backslash; every other character is unchanged) and ended only by their own unescaped quote. "
 "Comments of every style and white space separate tokens but have no other effect, so adding or changing them between tokens never changes the parsed result.",
 ["inputs"],
 "for every byte string, in particular every mix of quotes, backslashes, comment starters and enders, digits, signs, multi-byte characters and line ends",
 "TestLexToken checks the first token of 17 short inputs; token boundaries depend on every following character and are never checked together.",
 ["lexer.go", "tokens_gen.go", "parser.go"],
 [("one-rune look-ahead scanner with position book-keeping", "lexer.go: peek, advance, emit, str"), ("quote and comment scanning", "lexer.go: runQuote, unescapeQuotes, runCComment, runToEOL"), ("white space skipping", "parser.go: skipWhiteSpaces")],
 [("scanner state", "mode, token start, position, line", "spec/Lexer.tla")],
 ["token channel returned by lex (in-package)", "result of Parser.Parse under layout changes"])

prop("C10", "Malformed input is rejected as a whole, at the right place",
 "Input that is not a complete sequence of well-formed statements (a missing, misplaced, unsupported or unterminated element anywhere, including an unterminated quote or comment and a stray byte such as NUL) makes parsing return an error and no statements at all; it is never partly accepted or silently cut short. "
 "The error is a ParseError whose line, column and quoted context are those of the first token that cannot continue the statement, which says whether that is the end of the input, and which names the file when a file was parsed.",
 ["inputs"],
 "for every token sequence outside the grammar: every way to delete, insert, replace, swap or cut tokens of a well-formed input, at every point",
 "Six inputs are tested for rejection and three for position; rejection must hold for every grammar state and every unexpected token.",
 ["parser.go", "lexer.go", "errors.go"],
 [("expected-token checks in every parse function", "parser.go"), ("error construction", "errors.go: newParseError"), ("ILLEGAL tokens", "lexer.go")],
 [("viable prefix", "grammar state after each token, error at the first impossible token", "spec/Grammar.tla: Delta")],
 ["error and statements returned by Parser.Parse, ParseFile"])

prop("C11", "Parsing always terminates, never panics, leaks nothing, and is reentrant",
 "For every input, parsing returns (statements or an error) without panicking or blocking, whatever the interleaving of its concurrent scanner and parser, and once it has returned, the goroutine it started ends. "
 "One parser may be used from many goroutines at once: every call returns exactly what it returns when run alone.",
 ["inputs", "schedules"],
 "for every byte string, every interleaving of scanner and parser over their bounded channel, and every point at which the parser gives up early",
 "Tests only use small well-formed inputs in one goroutine, never look at goroutines left behind, and inputs rejected early while the scanner still has much to deliver are rare.",
 ["parser.go", "lexer.go"],
 [("bounded token channel, context cancellation on return", "parser.go: Parse, peek; lexer.go: lex, emit, Run")],
 [("channel, scanner and parser phase", "producer/consumer over a channel of capacity 3 with cancellation", "spec/Pipeline.tla")],
 ["return of Parser.Parse, goroutines alive afterwards"])

prop("C12", "The transaction option only adds its fixed envelope",
 "With the transaction option on, the output is BEGIN, then SET FOREIGN_KEY_CHECKS = 0, the migration statements, SET FOREIGN_KEY_CHECKS = 1, and COMMIT, each exactly once and in that order, also when there is nothing to migrate; with it off or absent, only the migration statements are written, and nothing when there are none. "
 "The migration statements are complete, each terminated by a semicolon, and the same set whichever entry point (statements, strings, files, sources) is used and whether or not the option is given.",
 ["inputs", "configurations"],
 "for every pair of schemas, both values and absence of the option, and every entry point",
 "The tests run without the option; one example checks the README pair with it. No test compares the entry points or the empty case.",
 ["diff/diff.go", "diff/option.go"],
 [("envelope and separators around the three phases", "diff/diff.go: Statements"), ("entry points delegating to Statements", "diff/diff.go: Strings, Files, Sources")],
 [("script phase", "position in the script: before, inside, after the transaction", "spec/Server.tla: phase")],
 ["text written to dst"])

prop("C13", "A failed run never passes for a complete one",
 "If reading, parsing, comparing, formatting or writing fails at any point, diff, format and lint return an error; they return success only after the complete output has been accepted by the destination. "
 "A diff that fails before writing (unreadable source, parse error, impossible migration, unprintable definition) writes nothing at all to the destination, and a destination that fails at any byte makes every entry point report that failure.",
 ["inputs", "fault_sequences"],
 "for every output, every byte position at which the destination fails, every read position at which a source fails, and both schemas being unreadable or malformed in turn",
 "No test uses a failing writer or reader, or checks the destination after an error.",
 ["diff/diff.go", "format/format.go", "lint/lint.go", "source.go"],
 [("output is assembled in a buffer and written once", "diff/diff.go: Statements"), ("error propagation", "diff/diff.go, format/format.go, lint/lint.go: Run")],
 [("bytes accepted, fault position, result", "run of one operation against a faulty destination", "spec/Emit.tla")],
 ["error returned, bytes accepted by dst"])

prop("C14", "A schema source delivers its content verbatim or fails",
 "A source string is resolved as documented: - is standard input, mysql:// a server, local-git:// the named file at the named commit of the named repository, file:// (without a remote host) and any string without a scheme the local file of exactly that name; anything else, including a remote file host, is an error, and resolving never yields neither a source nor an error. "
 "Reading a source either delivers exactly the bytes of that object, whatever they are and however the underlying reader splits them, or returns an error.",
 ["inputs", "configurations", "fault_sequences"],
 "for every source string of the documented forms and every near miss, every file name and content, every reader chunking and failure position",
 "The tests look at the type and fields chosen for eight strings and never read anything through a source.",
 ["source.go"],
 [("dispatch on the URI", "source.go: NewSchemaSource"), ("copying", "source.go: WriteSchema of each source")],
 [("resolved target", "kind and object of the source", "spec/Source.tla")],
 ["NewSchemaSource result", "bytes written by WriteSchema, error"])

prop("C15", "Reading a live MySQL schema is all or nothing",
 "Reading the schema of a MySQL server either succeeds with the CREATE TABLE text of every table the server lists, in the server's order, each terminated by a semicolon, or returns an error; it succeeds when nothing goes wrong, over TCP, a socket, or TLS set up with ssl-ca, ssl-cert and ssl-secret. "
 "A connection that is lost or answers malformed packets for good, an error reported, or rows that are not what was asked for, at any point of the conversation, are an error and never a shorter schema: nothing is written then (a retry on a new connection that gets the complete schema is fine).",
 ["fault_sequences", "inputs"],
 "for every number of tables, every table name, and every point of the conversation at which the server drops the connection, reports an error or answers something unexpected",
 "No test talks to a server; only DSN parsing is tested. A schema silently cut short makes the next diff drop the missing tables.",
 ["source.go"],
 [("SHOW TABLES then SHOW CREATE TABLE per row, buffered until complete", "source.go: mysqlSource.WriteSchema"), ("DSN and TLS configuration", "source.go: MySQLConfig, open")],
 [("conversation", "client and server steps with a fault at any step", "spec/MySQLSource.tla")],
 ["bytes written by WriteSchema, error, queries seen by the server"])

prop("C16", "Linting preserves the schema and is stable",
 "Linting a source prints, for each CREATE TABLE statement of the source in order and for nothing else, one canonical statement terminated by a semicolon, indented as requested (for the run, otherwise for the linter); the printed text declares the same schema as the source. "
 "Linting the printed text again prints the identical text, and a source that does not parse is an error.",
 ["inputs", "configurations"],
 "for every source in the supported grammar and every indentation",
 "The linter has no test at all.",
 ["lint/lint.go", "format/format.go", "format/option.go"],
 [("parse, then format each statement with separators", "lint/lint.go: Run")],
 [("denoted schema", "tables a text denotes", "spec/Grammar.tla")],
 ["text written by Linter.Run"])

prop("C17", "The command-line tools report success only for complete output",
 "schemalex and schemadiff write exactly the diff of their two sources (transaction on unless -t=false), and schemalint exactly the linted source, to standard output or to the file given with -o, replacing that file's content and writing nothing to standard output, and then exit with status 0. "
 "A wrong number of arguments, an unresolvable, unreadable or malformed source, or an output file that cannot be created gives a non-zero status, a message on standard error, and no SQL on standard output.",
 ["configurations", "inputs"],
 "for every combination of flags, number of arguments, source kind and state of each source and of the output file",
 "The commands have no tests.",
 ["cmd/schemalex/schemalex.go", "cmd/schemadiff/schemadiff.go", "cmd/schemalint/schemalint.go"],
 [("flag handling, output selection, error to exit status", "cmd/*/*.go: main, _main")],
 [("command run", "parse flags, open output, resolve, read, compute, write, exit", "spec/Cli.tla")],
 ["exit status, standard output, standard error, output file of the built commands"])

prop("C18", "A table stays consistent under every history of edits",
 "After any sequence of additions to a table, listing its columns, indexes and options returns everything added, once, in order of addition; looking a column up by its ID returns that column, its position in that order and the column before it (none for the first), and looking up an ID that was not added finds nothing; two indexes of a table have the same ID exactly if they have the same definition (ascending being the default direction). "
 "A column already owned by one table can be added to another without the tables affecting each other, and concurrent additions and lookups of columns lose nothing and return consistent answers.",
 ["histories", "schedules"],
 "for every sequence of additions and lookups over several tables sharing columns, and every interleaving of concurrent additions and lookups",
 "The model package tests only check interface satisfaction; no test adds more than one column through the API and looks it up.",
 ["model/table.go", "model/table_column.go", "model/index.go", "model/reference.go", "model/interface.go"],
 [("ordered slice plus name-to-position map under a lock", "model/table.go: AddColumn, LookupColumn*"), ("clone on second owner", "model/table.go: AddColumn"), ("index identity digest", "model/index.go: ID")],
 [("table contents", "ordered columns, indexes, options and owner of each column", "spec/TableModel.tla")],
 ["model.Table methods"])

prop("C19", "Objects of the model keep what they are given",
 "Objects built through the model's interface (tables, columns, lengths, indexes, index columns, references, options, databases) show exactly what was set last and added in order, whatever the order of calls: setting one attribute changes no other attribute and no other object, and every Has- and Is-method agrees with the value it is about. "
 "A clone of a column or an index shows what its original showed when it was cloned, and later calls on either do not show in the other (objects set or added by reference, such as a length or an index column, are the same in both). Setters return their receiver. Printed alone, a column, an index, a reference, an option, a table or a database is the piece of SQL that declares it as it was built, normalized or not, and printing changes nothing.",
 ["histories", "inputs"],
 "for every sequence of setters, additions and clones over several objects that refer to each other, and every table built through the interface",
 "The tests of the model build a handful of objects once and never change a clone and its original in turn.",
 ["model/table_column.go", "model/index.go", "model/reference.go", "model/table.go", "model/database.go", "format/format.go"],
 [("setters over maybeString and slices, shallow copies", "model/*.go: Set*, Add*, Clone"), ("printing of single parts", "format/format.go: format*")],
 [("heap of objects", "attributes of every object, references between objects", "spec/Objects.tla, spec/ObjectModel.tla")],
 ["methods of model objects", "text written by format.SQL"])

prop("C20", "Operations on schemas only read them and do not influence each other",
 "Parsing, comparing (from models or text, with or without a transaction), printing (with or without an indent), normalizing, linting and looking up statements leave the schemas that they are given exactly as they were, and each gives the same result (up to the order of statements in a diff) that it gives alone: whatever ran before it, including operations whose destination failed, and whatever runs at the same time on the same schemas, parser or linter. "
 "There is no data race, no goroutine is left behind, a list of statements is printed as its statements are, and looking up an ID finds the first statement that has it, or nothing.",
 ["histories", "schedules", "inputs"],
 "for every sequence and every concurrent set of operations over every pair of schemas",
 "Every test runs one operation on objects of its own.",
 ["diff/diff.go", "format/format.go", "lint/lint.go", "parser.go", "model/statement.go", "model/table.go"],
 [("operations read models through channels over their slices", "diff/diff.go: Statements; format/format.go: SQL; model/table.go: Columns, Indexes, Normalize"), ("lookup by ID", "model/statement.go: Lookup")],
 [("shared schemas", "parts of each schema and the operations that visit them", "spec/Readers.tla, spec/ReaderHistories.tla")],
 ["results of diff.Statements, diff.Strings, format.SQL, Linter.Run, Parser.ParseString, Table.Normalize, Stmts.Lookup", "models before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
