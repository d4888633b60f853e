"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py`."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, level=None, note=None, na=None, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, na=na, state=state, obs=obs))

SIM = "deterministic simulation with fault injection: real oct binary over a simulated kernel, seeded search"
ALLF = ["main.go", "util/io.go", "format/octopus/table.go", "format/octopus/io.go"]
COMMON = " Real code: the whole oct program, its libraries and the Go runtime; simulated: every system call (in-memory disk, clock, ids) and the runtime's random seeds."

prop("C01", "Success is reported only when the complete output is on disk",
 "A command that exits with status 0 has left every output file complete and exactly as an undisturbed run leaves it, whatever the file system answered during the run. If any output could not be written completely, the command exits with a non-zero status and says why on standard error; it never crashes.",
 ["fault_sequences", "inputs", "configurations"],
 "every command, schema and option set; every system call of the run failed in turn with every applicable error, disks filling up at any byte, several failures in one run, older outputs of other lengths in the way",
 "The tests call generators on in-memory buffers; no test makes a write, close, mkdir or read fail, so an ignored error return passes them all.",
 ["util/io.go", "format/octopus/table.go", "format/graphql/generator.go", "format/liquibase/generator.go", "format/liquibase/diff.go", "format/xlsx/exporter.go", "format/mysql/exporter.go", "main.go"],
 [("error returned from every writer up to main", "util/io.go, format/*/cli.go, main.go log.Fatal")],
 "fault_enumeration", "Every system call of each sampled run is failed with every applicable error kind, one at a time (sampled when there are more than 130), plus seeded multi-fault plans and disk sizes; the output is compared byte for byte with the undisturbed run of the same build.")

prop("C02", "Short and interrupted transfers never change the result",
 "A run whose reads and writes transfer fewer bytes than asked, are interrupted by signals, or proceed in arbitrarily small pieces succeeds with exactly the output of an undisturbed run. The same holds when only the diagnostic messages cannot be delivered.",
 ["fault_sequences", "inputs", "configurations"],
 "every command, schema and option set; every read and write shortened or interrupted in turn and in combination; transfer sizes down to one byte; standard error failing at any message",
 "Tests read and write whole files on a healthy local disk, where a transfer is never short.",
 ["util/io.go", "format/octopus/table.go", "format/xlsx/importer.go", "format/mysql/importer.go", "format/staruml/importer.go"],
 [("whole-file reads and writes", "ioutil.ReadFile / ioutil.WriteFile, zip reader and writer")],
 "fault_enumeration", "All single short/interrupted transfers of each sampled run (sampled above 60), whole-run transfer limits and seeded combinations.")

prop("C03", "Running a command again after any crash gives the undisturbed result",
 "If a command is killed or the machine loses power at any moment, any number of times, running the same command again succeeds and leaves exactly the output of an undisturbed run. Nothing an earlier, interrupted, failed or differently sized run left at the output influences the result.",
 ["crash_points", "fault_sequences", "inputs", "configurations"],
 "every command, schema and option set; kill before, after and in the middle of every system call; power loss with unsynced data torn, emptied, zeroed, reverted or lost; one to three crashes or errors in a row; old outputs longer or shorter than the new ones",
 "No test kills a run or starts on a disk with half-written or older output.",
 ["util/io.go", "format/octopus/table.go", "format/jpa/kotlin-gen.go", "format/sqlalchemy/generator.go", "format/graphql/generator.go"],
 [("outputs are rewritten from the start with truncation; directories are created with MkdirAll", "util/io.go, format/*/generator.go")],
 "fault_enumeration", "Kill and power-loss points cover every disk-changing call of each sampled run (sampled above 60), with seeded torn states, plus seeded chains of two and three crashes and error-then-rerun runs.")

prop("C04", "A run touches nothing but its requested output",
 "A command never modifies, truncates, renames or removes its input files or any file that is not one of its own output files, and creates nothing outside the requested output file or directory. This holds for successful, failing and interrupted runs alike.",
 ["fault_sequences", "crash_points", "inputs", "configurations"],
 "every command, schema and option set; input, neighbour and bystander files placed next to, inside and away from the output; fault-free, failing, killed and power-failed runs; wrong arguments",
 "Tests check the text a generator produces, not which files a run touches; none looks at the rest of the disk, least of all after a failure.",
 ["util/io.go", "format/jpa/kotlin-gen.go", "format/sqlalchemy/cli.go", "format/gorm/cli.go", "format/plantuml/cli.go", "format/graphql/generator.go"],
 [("output paths are built below the requested output", "format/*/cli.go, util/io.go")],
 "fault_enumeration", "Every system call of every run is checked against what the run may touch, and the whole simulated disk is compared afterwards.")

prop("C05", "Torn, truncated or missing inputs are rejected without side effects",
 "A command whose input file is missing, empty, truncated at any byte, partly zeroed, or followed by the tail of an older version exits with a non-zero status and a message, and leaves the disk exactly as it was, including existing outputs. Of a truncated SQL script it may instead accept the complete statements before the tear, never an incomplete table.",
 ["crash_points", "inputs", "fault_sequences"],
 "every command that reads a file, every schema; truncation at every offset, zero-filled tails and sectors, overlong files, absent files and directories in place of the file; either input of a comparison",
 "No test feeds a partial file; the torn position is one of thousands per input.",
 ["format/octopus/io.go", "format/octopus/table.go", "format/ojson/importer.go", "format/mysql/importer.go", "format/staruml/importer.go", "format/xlsx/importer.go"],
 [("inputs are parsed completely before any output is opened", "format/*/cli.go actions")],
 "fault_enumeration", "Sampled tear offsets, dense at both ends of the file, for every input of every command kind; an independent judge decides which damaged files must be rejected.")

prop("C06", "Results depend on inputs and options only",
 "The same command on the same input files gives the same exit status, the same bytes in every output, the same standard output and the same messages (time stamps aside) in every run. Time, process id, host, unrelated environment variables, time zone, project location, memory layout and internal iteration or scheduling order never show.",
 ["schedules", "inputs", "configurations", "histories"],
 "every command, schema and option set, including failing ones; all iteration and scheduling orders, clocks (also jumping backwards), ids and environments",
 "Tests compare one run with a fixed expectation; an order that is random per run passes most of the time or is never exercised with more than one element.",
 ["format/diff/diff.go", "format/liquibase/diff.go", "format/gorm/gorm_model.go", "util/set.go", "util/multimap.go", "format/xlsx/importer.go", "format/protobuf/generator.go"],
 [("sorted sets and slices wherever a map feeds the output", "util/set.go Slice, format/*")],
 "exploration", "Seeded search over runtime random seeds (map, select and run-queue order), clocks, ids and environments; each scenario is compared over ten variants.")

prop("C07", "Commands executed in one process do not influence each other",
 "Executing any sequence of commands one after another in a single process gives every command the exit status and the outputs it has in a fresh process. Options, schemas and failures of earlier commands leave nothing behind.",
 ["histories", "inputs", "configurations"],
 "all sequences of two to nine commands of all kinds, with shared and separate schemas, repeated kinds with different options, and failing commands in between",
 "Each test runs one generation with its own objects; state that survives in package variables needs a second command with the right options to show.",
 ["format/gorm/gorm_model.go", "util/memoization.go", "util/python.go", "format/protobuf/generator.go", "format/common"],
 [("per-invocation generators and options", "format/*/cli.go, format/*/generator.go")],
 "exploration", "Seeded command histories in one simulated process against fresh-process runs.")

prop("C08", "Concurrent runs on one disk behave as if each ran alone",
 "Commands running at the same time with different outputs each finish with the result they have alone, even when they share inputs and output directories and when one of them is killed. The same command run several times at once leaves one complete result. A command reading a schema file that another command is still creating either fails or works on the complete schema.",
 ["schedules", "inputs", "configurations", "crash_points"],
 "two to five processes of all kinds, every interleaving of their system calls, arbitrary transfer sizes, kills of one process",
 "No test runs two commands at once; the harmful interleavings are a few out of millions.",
 ["util/io.go", "format/octopus/table.go", "format/sqlalchemy/generator.go", "format/jpa/kotlin-gen.go"],
 [("no shared intermediate files; outputs written in place from complete buffers; JSON readers need the whole document", "util/io.go, format/octopus/table.go")],
 "exploration", "Seeded interleavings at system-call granularity of real processes, compared with solo runs.")

prop("C09", "An interrupted run leaves only whole files and at most one partial file",
 "When a run that writes one or many files is stopped at any point by a kill, an error or a full disk, every output file on disk is either complete, or still what it was before, except at most the one file being written at that moment. That file holds a beginning of its final content, and no foreign file is left in the output.",
 ["crash_points", "fault_sequences", "inputs", "configurations"],
 "all generation commands, weighted to those writing many files, every schema and option set; a stop at every system call and in the middle of every write",
 "Tests never stop a run half way.",
 ["format/jpa/kotlin-gen.go", "format/sqlalchemy/generator.go", "format/graphql/generator.go", "util/io.go"],
 [("each file is rendered in memory and written in one go; files are written one after another", "format/jpa/kotlin-gen.go, util/io.go")],
 "fault_enumeration", "Every stop point of each sampled run (sampled above 80).")

prop("C10", "Files announced as written are completely written",
 "Whenever a command announces a file as written, that file is at that moment completely on disk with its final content, and it still is when the command ends. A successful run announces the same files as an undisturbed one.",
 ["fault_sequences", "crash_points", "inputs"],
 "all announcing commands, every schema; every disk operation failed, shortened or stopped in turn",
 "The tests ignore the log; an announcement issued before or despite a failed write is invisible to them.",
 ["util/io.go", "format/graphql/generator.go", "format/liquibase/generator.go", "format/liquibase/diff.go"],
 [("the announcement follows the checked write", "util/io.go WriteStringToFile and siblings")],
 "fault_enumeration", "The simulated disk is inspected at the moment of each announcement in every faulted run.")

prop("C11", "Options mean the same however given; wrong command lines are rejected",
 "Every documented option of every command has the same effect as --long VALUE, --long=VALUE, its documented short form and its documented environment variable, in any order; the command line counts more than the environment, and an option that is not given, given as nothing in the environment or as false has its documented default (init writes db.json). A wrong command line (unknown command or option, option without a value, required option missing, flag neither true nor false) ends with a non-zero status and a message and leaves the disk as it was.",
 ["inputs", "configurations"],
 "every command, every documented option in every spelling and combination, every contradicting environment; wrong command lines of each kind",
 "No test starts the program or parses a command line; cli.go of every format is untested.",
 ["main.go", "format/gorm/cli.go", "format/jpa/cli.go", "format/protobuf/cli.go", "format/mysql/cli.go", "format/octopus/cli.go"],
 [("flags, aliases, environment variables", "format/*/cli.go"), ("dispatch and exit status", "main.go")],
 "exploration", "Seeded command lines and environments of simulated runs, compared with the same options given in long form; values of options themselves are judged by C04 and C12-C22.")

prop("C14", "Damaged stored inputs never crash or hang a command",
 "Whatever storage damage or loss of individual values an input file has suffered, a command ends by itself: either it succeeds, or it exits with a non-zero status and a message. It does not crash, hang or change the input.",
 ["inputs", "fault_sequences"],
 "every reading command and schema; flipped bits, misdirected, lost and doubled pieces of a file; lost, nulled and swapped values in an otherwise well-formed document",
 "Tests use well-formed inputs only.",
 ["format/octopus/table.go", "format/ojson/table.go", "format/staruml/importer.go", "format/xlsx/importer.go", "format/mysql/importer.go", "format/protobuf/generator.go", "format/jpa/kotlin-gen.go"],
 [("validation after parsing, errors instead of panics", "format/octopus/table.go, format/ojson/table.go, format/staruml/importer.go")],
 "exploration", "Seeded damage, thirty damaged inputs per scenario; termination is judged by a step bound.")

HISTN = "Seeded histories of two to five schema versions, each undisturbed and with up to three (thorough: twelve) fault plans: killed, power-lost and failing attempts before the command is run again, short and interrupted transfers, interrupted deployments."
prop("C15", "Deploying the Liquibase change logs leads to every schema version",
 "For every history of schema versions, the change log generated for the first version and the change logs of each difference, applied in order to a database (each change set once, interrupted deployments resumed), are accepted and leave exactly the tables, columns, types, constraints, defaults and, when comments are requested, remarks of the current version (without that request columns get none), restricted to the selected groups. The tables and columns that stay, and the one table or column that is renamed and otherwise the same, keep their rows: they are never dropped and created again. The change log of any version as a whole leads to the same database. This holds however often the commands that wrote them were killed or failed and run again before.",
 ["inputs", "histories", "crash_points", "configurations"],
 "every sequence of schema versions with tables and columns added, dropped, renamed and exchanged, and types, keys, defaults and comments changed; every option set; crashes of the commands and of the deployment at any point",
 "There is no test of the diff and liquibase packages; a wrong change set shows only when a whole sequence of logs is applied to a database.",
 ["format/liquibase/diff.go", "format/liquibase/generator.go", "format/diff/cli.go", "format/octopus/column.go"],
 [("comparison of two versions by table and column name, renames by equal definition", "format/liquibase/diff.go"), ("change set ids", "format/liquibase/generator.go LqId")],
 "exploration", HISTN + " The oracle is a model database that refuses change sets that do not fit.")
prop("C16", "Running the Flyway scripts leads to the exported schema",
 "For every history of schema versions, the SQL export of the first version followed by the migration script of each difference runs without an error on a database and leaves the same tables, column definitions and primary keys as the SQL export of the last version, and never drops and recreates a table that stays or that is renamed and otherwise the same, for the kinds of changes the Flyway writer implements (tables created, dropped and renamed; columns added; not-null, auto-increment and primary keys changed). The export holds every selected table and column and no other.",
 ["inputs", "histories", "crash_points", "configurations"],
 "every such sequence of schema versions and option set; crashes and errors of the commands at any point before they are run again",
 "There is no test of the diff package; tests of the exporter compare one table with a fixed text.",
 ["format/diff/diff.go", "format/diff/mysql.go", "format/diff/flyway.go", "format/mysql/exporter.go"],
 [("change sets written as SQL with the exporter's column definitions", "format/diff/mysql.go")],
 "exploration", HISTN + " The oracle is a model database executing the scripts.")
prop("C17", "The change report tells every change between two versions and no other",
 "The Markdown report of a difference names, under the right table, every table and column that was added, dropped or renamed and every changed type, null constraint, auto-increment, default, key and requested comment with its new value, once, and nothing that did not change; the one table or column that is renamed and otherwise the same is told as renamed; only tables of the selected groups occur.",
 ["inputs", "histories", "crash_points", "configurations"],
 "every pair of versions in every history and option set; crashes and errors of the commands before they are run again",
 "There is no test of the report writer or of the comparison it prints.",
 ["format/diff/diff.go", "format/diff/markdown.go", "format/diff/changeset.go"],
 [("one line per change, grouped by table", "format/diff/markdown.go")],
 "exploration", HISTN + " The oracle is an independent comparison of the two versions.")

HIST1 = "Seeded histories, each undisturbed and with up to three (thorough: twelve) fault plans: killed, power-lost and failing attempts before the command is run again, short and interrupted transfers."
prop("C12", "A schema survives the way through a spreadsheet",
 "A spreadsheet laid out as documented is imported as exactly the schema it states: meta data, groups, tables in every sheet, columns in order with type, size, scale, keys, null constraint, attributes, description and reference with its relationship, and indices. An exported spreadsheet states the exported schema in that layout, with either kind of null column, so that exporting and importing, however often, returns the schema (but for what a spreadsheet cannot hold: empty groups are named Common, a primary key is not also unique, surrounding blanks of texts).",
 ["inputs", "histories", "crash_points", "configurations"],
 "every schema without enum and set values, both layouts, every way to write a sheet; repeated round trips; crashes and errors of the commands before they are run again",
 "One test exports and imports one schema with one table.",
 ["format/xlsx/exporter.go", "format/xlsx/importer.go", "util/types.go"],
 [("one sheet per group, one row per column, index rows", "format/xlsx/exporter.go fillGroupSheet, format/xlsx/importer.go readGroupSheet")],
 "exploration", HIST1 + " An independent reader and writer of the documented layout is the oracle.")
prop("C13", "Imported schemas say what the foreign schema says",
 "Importing a MySQL script, an octopus v1 file or a StarUML model yields exactly the tables, columns (in order), types, sizes, null constraints, keys, defaults, comments, enum values, indices and references the source defines, without the excluded tables and with the given author and version, in whatever style the source is written. A schema exported as SQL and imported again, repeatedly, is the same schema but for what SQL does not hold (groups, class names, references).",
 ["inputs", "histories", "crash_points", "configurations"],
 "every schema and source style (quoting, letter case, inline or separate constraints, escapes, dump decorations, string or numeric lengths); crashes and errors of the commands before they are run again",
 "A test imports one script and compares a part of it; ojson and StarUML imports have no tests.",
 ["format/mysql/importer.go", "format/mysql/exporter.go", "format/ojson/importer.go", "format/ojson/types.go", "format/staruml/importer.go"],
 [("translation of the parsed script", "format/mysql/importer.go"), ("translation of types", "format/ojson/types.go, util/types.go ParseType")],
 "exploration", HIST1 + " The source is rendered from a known schema, which is what the import has to return.")

prop("C18", "Exported diagrams show exactly the selected part of the schema",
 "A DBML, QuickDBD or PlantUML diagram exported from a schema is well-formed and states exactly the tables that the options select, each with all its columns in order, their types, sizes, keys, nullability, default values, comments and indices as far as the diagram language has them, and exactly the references between them. Names, comments and values with quotes, backslashes or other marks keep their meaning. This also holds for a run that follows interrupted or failed ones.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every schema and option set of the three exports, options given in any documented spelling or by environment variable, after any sequence of killed, power-lost and failed attempts",
 "Two of the three exporters have no tests; the third one's test compares one schema's text, so a wrong fact about any other kind of column goes unseen.",
 ["format/dbml/generator.go", "format/quickdbd/generator.go", "format/plantuml/generator.go", "format/octopus/types.go"],
 [("translation of tables, columns and references to text", "format/dbml, format/quickdbd, format/plantuml")],
 "exploration", HIST1 + " The diagram is read back by an independent reader.")

prop("C19", "Generated API definitions are well-formed and agree with the schema",
 "GraphQL schemas and protobuf definitions generated from a schema are accepted by their language: names and field numbers are unique, every type that is used is defined, every import that is needed is there. They define exactly one type per selected table, under the name that the naming options ask for, with exactly its columns, in order and with the right types, and the requested package, Go package and relation tags. If tables or columns would become the same type or field, that is reported and nothing is generated. This also holds for a run that follows interrupted or failed ones.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every schema and option set of both generators, options given in any documented spelling or by environment variable, after any sequence of killed, power-lost and failed attempts",
 "The tests compare the text for one schema with one option set; clashes of tags and names need schemas with particular references.",
 ["format/protobuf/generator.go", "format/protobuf/pb.go", "format/graphql/generator.go", "format/graphql/cli.go"],
 [("assignment of field and relation tags", "format/protobuf/generator.go"), ("type names from prefixes", "format/common")],
 "exploration", HIST1 + " The definitions are read back by an independent reader.")

prop("C20", "Generated GORM sources compile and map every selected table",
 "The Go source generated for GORM compiles: it imports exactly the packages it uses, its names are unique, no struct contains itself. It has exactly one struct per selected table, under the name that the naming options ask for, whose TableName is the table's; every column is mapped exactly once, by a field or an embedded model whose columns the table has all of, with a type that fits its type and nullability and with its size, keys, unique constraint and indices; every reference has an association with existing foreign key and referenced fields. If tables or columns would become the same struct or field, that is reported and nothing is generated. This also holds for a run that follows interrupted or failed ones.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every schema and option set, options given in any documented spelling or by environment variable, after any sequence of killed, power-lost and failed attempts",
 "The test compares the text for two tables; the generated source is never compiled, and references, embedded models and unusual types meet in no test.",
 ["format/gorm/generator.go", "format/gorm/gorm.go", "format/gorm/gorm_model.go", "format/gorm/cli.go", "util/string.go"],
 [("structs, fields and tags", "format/gorm"), ("embedded models", "format/gorm/gorm_model.go")],
 "exploration", HIST1 + " The source is type-checked with go/types against stand-ins of the packages it imports.")

prop("C21", "Generated JPA entities and repositories map every selected table",
 "The Kotlin sources generated for JPA are well-formed: names are legal and unique, default values fit their types, everything used is imported. There is exactly one entity file per selected table, in the directory of the entity package and under the name that the naming options ask for, with the table's name, unique constraint, id or id class, requested annotations and interface, and exactly one property per column, in order, mapped to that column with a type that fits its type and nullability, its length or precision, key and generation. With a repository package there is exactly one repository per entity, with its id type. If tables or columns would become the same class or field, that is reported and nothing is generated. This also holds for a run that follows interrupted or failed ones.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every schema and option set, options given in any documented spelling or by environment variable, after any sequence of killed, power-lost and failed attempts",
 "The test compares one entity's text; no test generates repositories, composite keys, relations or columns without a Kotlin default value.",
 ["format/jpa/kotlin-gen.go", "format/jpa/kotlin.go", "format/jpa/cli.go", "util/string.go"],
 [("classes, properties and annotations", "format/jpa")],
 "exploration", HIST1 + " The sources are read back by an independent reader for the part of Kotlin they need.")

prop("C22", "Generated SQLAlchemy classes map every selected table",
 "The Python sources generated for SQLAlchemy are well-formed: names are legal and not reserved, every name is imported or defined before it is used, types get arguments they take. There is exactly one class per selected table, in one file or one file each as the output asks for, under the name that the naming options ask for, with the table's name and unique constraint, and exactly one attribute per column, in order, mapped to that column with its type, size, keys, nullability and, for created_at and updated_at, time defaults in local time or UTC as requested. If tables or columns would become the same class or field in one scope, that is reported and nothing is generated. This also holds for a run that follows interrupted or failed ones.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every schema and option set, options given in any documented spelling or by environment variable, after any sequence of killed, power-lost and failed attempts",
 "The only test of the generator is skipped.",
 ["format/sqlalchemy/generator.go", "format/sqlalchemy/sqlalchemy.go", "format/sqlalchemy/cli.go", "util/python.go"],
 [("classes, attributes and imports", "format/sqlalchemy")],
 "exploration", HIST1 + " The sources are read back by an independent reader for the part of Python they need.")

prop("C23", "Schema files that say the same give the same output",
 "What a command writes depends on what its schema files say, not on how they say it: the order of the tables and of the keys of an object, synonyms of types and their letter case, white space and escapes, values that are written out although they are the default, and unknown keys do not change the output of any export, generator or comparison by a byte, nor whether it succeeds. Types the tool does not know in one column do not change how other columns are read.",
 ["inputs", "configurations", "histories"],
 "every pair of schema files with the same meaning, for every command that reads schema files and every set of its options, the second file alone or replacing the first after a complete, killed or failed run",
 "The tests read each schema in one spelling; none compares two, and few use a synonym of a type at all.",
 ["format/octopus/table.go", "format/octopus/io.go", "util/types.go", "format/diff/diff.go", "format/liquibase/diff.go"],
 [("normalisation of types", "format/octopus/table.go"), ("order of tables", "format/octopus/table.go"), ("comparison of tables", "format/diff/diff.go")],
 "exploration", "Seeded pairs of schema files for all 14 commands that read them; the outputs of the real binary on both are compared byte by byte.")

prop("C24", "Tables do not influence what is generated for others",
 "What a command writes for a table depends on that table and the tables it refers to: adding a table that no other refers to and that refers to none changes nothing that is written for the others and adds only what is written for the new table alone; adding a table which the command's group filter or table selection leaves out changes nothing at all. Where each table has its own file, the files of the others stay the same to the byte.",
 ["inputs", "configurations", "histories"],
 "every schema, every unrelated table added at any position, for every command that reads schema files and every set of its options, on an empty target or over a complete, killed or failed run without the table",
 "The tests generate for one or two fixed tables; state that leaks from one table into the next shows only with particular pairs in a particular order.",
 ["format/octopus/filter.go", "format/common/prefix.go", "format/jpa/kotlin-gen.go", "format/gorm/generator.go", "format/sqlalchemy/generator.go", "format/graphql/generator.go", "format/protobuf/generator.go", "format/plantuml/generator.go", "format/quickdbd/exporter.go"],
 [("selection by group", "format/octopus/filter.go"), ("state kept across tables", "format/*/generator.go")],
 "exploration", "Seeded pairs of schemas, one with an unrelated table more; outputs compared line by line, files of other tables byte by byte, and with what the table gives alone.")

prop("C25", "What one command writes, the others read",
 "A schema file made by init or by any import is accepted by every exporter and generator, which give exactly what that file asks for; and a schema that came from one format survives the way out to another and back (spreadsheet, SQL) as far as that format can state it. This also holds when runs of any of the commands were interrupted or failed before.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every pair of a command that makes a schema file (init, four imports) and one that reads it (ten ways), every foreign input and option set, after any sequence of killed, power-lost and failed attempts of each",
 "Each test covers one command on a hand-written schema; no test gives one command what another wrote.",
 ["format/octopus/cli.go", "format/octopus/io.go", "format/octopus/table.go", "format/octopus/column.go", "format/mysql/importer.go", "format/ojson/importer.go", "format/staruml/importer.go", "format/xlsx/importer.go", "format/xlsx/exporter.go", "format/mysql/exporter.go"],
 [("schema files", "format/octopus"), ("imports", "format/*/importer.go")],
 "exploration", "Histories of two to four commands in the simulator; the result of the last is judged by the reader and oracle of its own property against the schema file in between.")

exec(open(os.path.join(ROOT, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_props.py")) else None

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
            if p["obs"]: a["observe_at"] = p["obs"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1,
         "setup_cmd": "cd sim && CGO_ENABLED=0 GOTOOLCHAIN=local go vet . && CGO_ENABLED=0 GOTOOLCHAIN=local go build -buildvcs=false -o /dev/null .",
         "hooks": {"guard": "none in /repo: the seams are added by a go build -overlay of the standard library's syscall, os and runtime packages and by statement instrumentation of a scratch copy, so the shipped code is unchanged", "enable": "check.sh builds the simulated oct with go build -overlay (sim/build.go)", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "check.sh replay FILE reproduces a reported violation."}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                "technique": SIM, "level": p["level"], "level_note": p["note"] + COMMON})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
