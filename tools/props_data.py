prop("C02", "Cell formatting options reach Excel as the matching cell style",
     "Whatever formatting a cell of the compiled spreadsheet asks for (alignment, wrapping, number format, text formats, font family, size and "
     "color, background color, borders with their style and color, note), the written Excel workbook gives exactly that formatting to that cell, "
     "each option value as the Excel value the documentation names, and nothing it did not ask for.",
     "inputs", "every cell, every combination of option values",
     "The tests write one workbook and read back a few cells; most enum values, border sides and combinations are never compared.",
     "src/target/excel/mod.rs src/target/excel src/cell_options",
     ["cell options -> umya style", "set_style on the cell's coordinate"])
prop("C03", "Cell formatting options reach Google Sheets as the matching cell format",
     "Whatever formatting a cell of the compiled spreadsheet asks for (alignment, wrapping, number format, text formats, font family, size and "
     "color, background color, borders with their style and color, note), the request sent to Google Sheets carries exactly that formatting for "
     "that cell in values the Sheets API defines, and nothing it did not ask for.",
     "inputs", "every cell, every combination of option values",
     "The Google target cannot be exercised by offline tests at all; only small helper functions are sampled.",
     "src/target/google_sheets", ["BatchUpdateSpreadsheetRequest builder"])
prop("C04", "Data validations reach Excel and Google Sheets with the same meaning",
     "Each data validation a cell declares is written to Excel and to Google Sheets as the validation type, operator and operands it stands for, "
     "on that cell, with a message that says the same; no validation is dropped, swapped with another or given the wrong operands.",
     "inputs", "every validation variant and operand",
     "Existing tests sample a few variants on the Excel side and none on the Google request.",
     "src/target src/cell_options/data_validation.rs", ["validation -> umya DataValidation", "validation -> DataValidationRule"])
prop("C05", "Every compiled cell value is written, to the right kind of cell",
     "The value of each compiled cell is written to the CSV file, the Excel workbook and the Google Sheets request: text and references as text, "
     "numbers as numbers, booleans as booleans, dates as dates, and formulas as formulas; an empty cell is written as empty.",
     "inputs", "every cell and every kind of value, for each output format",
     "Tests compare a handful of written cells; the per-kind dispatch has cases no test writes, and the Google request is never inspected.",
     "src/target/csv/compilation_target.rs src/target/excel/mod.rs src/target/google_sheets", ["value kind -> cell writer"])
prop("C06", "Overwriting an existing sheet keeps what the compiled sheet does not cover",
     "When the output already exists, a compiled cell replaces the existing one, an existing cell with no compiled counterpart is kept, nothing "
     "is reordered or dropped; with safe mode an existing non-empty cell is never overwritten.",
     "inputs", "every combination of existing and compiled rows of any length, with and without safe mode and offsets",
     "The merge works on two ragged grids of any size; tests merge one or two small ones.",
     "src/target/mod.rs src/target/csv/mod.rs src/target/excel/mod.rs src/target/google_sheets src/config/mod.rs",
     ["merge of existing and new cells", "safe mode flag"])
prop("C07", "Each compiled cell is written at its own row and column",
     "The cell of row r and column c of the compiled spreadsheet is written at row r and column c of the output (shifted by the configured "
     "offsets), and so are its note and its data validation; rows are written in order.",
     "inputs", "every spreadsheet size and offset",
     "Off-by-one and swapped axes only show up away from the corner cells that tests look at, and the Google request is never inspected.",
     "src/target/csv src/target/excel/mod.rs src/target/google_sheets src/compiler/mod.rs", ["position arithmetic of each positional sink"])
prop("C08", "Output is only written after a complete compilation and, with --backup, a backup",
     "The output is only touched after configuration and compilation have fully succeeded; with --backup a copy of the old output is first made under "
     "a new name (stem, timestamp, extension) that never replaces an existing file, and if that fails the output is not written. Any failure ends in a failing exit status.",
     "inputs faults", "every failing step of the pipeline, every output file name and every earlier backup",
     "There is no test of backups or of the program's pipeline, and none injects a failing step.",
     "src/main.rs src/target src/compiler/mod.rs", ["compile_from_cli order", "backup_file"])
prop("C01", "Cell and row options are read as documented",
     "Each documented option name and abbreviation, with each documented value and alias, gives a cell exactly the formatting, validation, note, lock, "
     "variable, expand or color it stands for, and changes nothing else; an undocumented name or value is an error, never silently ignored or read as another.",
     "inputs", "every option, every alias, every value text and every prior state of the cell",
     "Tests parse a sample of the options; about a hundred names and value spellings across a dozen tables are each one typo away from being misread.",
     "src/parser/cell_parser/mod.rs src/parser/cell_parser/validate.rs src/cell_options src/rgb/try_from.rs",
     ["option name dispatch", "value tables", "validation argument parsing"])
prop("C30", "Cells inherit their row's options; a cell's value is the text after its options",
     "A cell has every formatting, validation, note and lock option given for its row before it, unless its own options say otherwise; row options are only "
     "accepted on the first cell of a row and cell options once per cell, every option up to the closing brackets is read and an error in any is "
     "reported. The cell's value is the text left after its options, a formula if that starts with `=`; each record becomes one row with one cell per field, in order.",
     "inputs", "every cell text, row and number of cells",
     "Inheritance is a field-by-field copy of sixteen options along a mutable row threaded through the parser; tests look at two or three of them.",
     "src/parser/cell_parser/mod.rs src/cell/mod.rs src/row/mod.rs src/spreadsheet/mod.rs src/parser/cell_lexer/mod.rs",
     ["row options shared by the cells", "option list loop", "value and formula of a cell"])
prop("C20", "Formulas parse with spreadsheet operator precedence, and nothing is dropped",
     "Every formula and definition is parsed into the tree its text means: each operator with its own left and right operand, grouped by the usual spreadsheet "
     "precedence (function call, sign, percent, ^, * and /, + and -, &, comparisons) unless parentheses say otherwise, signs and percentages kept on "
     "their number, and every function argument (empty ones too) in its place. Text that is no complete expression is an error; no part of a formula is dropped.",
     "inputs", "every formula, nesting and combination of operators",
     "Precedence is a relation over all ordered pairs of operators in every nesting; the tests compile a handful of formulas.",
     "src/parser/ast_parser.rs src/parser/code_section_parser.rs", ["binding powers of operators", "expression loop", "function arguments", "prefix and postfix operators"])
prop("C19", "Formulas are written out as text that means the same formula",
     "Every formula is written out as text that reads back as the same tree: operands in order around their operator inside parentheses, call arguments in order "
     "and comma separated, numbers with their own sign and percentage, TRUE and FALSE, references verbatim, and text in quotes; and a quoted text in the source "
     "is read as exactly the characters between its quotes, doubled quotes standing for one, an unterminated one being an error.",
     "inputs", "every tree, every number and every quoted text",
     "Trees and texts are unbounded; the tests print a few nodes and never combine signs, percentages and quotes.",
     "src/ast/display.rs src/ast/node.rs", ["Display of nodes", "text_unquote loop"])

prop("C27", "The spreadsheet section is split into exactly the written rows and cells",
     "Rows end at newlines and cells at commas outside double quotes; inside quotes every character is kept, two quotes stand for one, and a backslash before a "
     "newline outside quotes joins lines; lines starting with # are left out without taking a row, anything after a closing quote is an error, and no other "
     "character of a cell is lost, added or moved. Each cell gets its own column and row, and each character kept the line and column it has in the file.",
     "inputs", "every text of the spreadsheet section",
     "The input is an unbounded text and the parser a state machine over it with lookahead; tests try about a dozen inputs.",
     "csvp/src/parser.rs csvp/src/field_builder.rs src/spreadsheet/mod.rs",
     ["field, quoted field and record loops", "consume_char positions", "Spreadsheet::parse"])

prop("C21", "Formulas are split into exactly the tokens that are written",
     "Formulas and definitions are read as the tokens written: the longest whole operator, number, word, reference or quoted text at each place, whatever "
     "whitespace is around it; newlines and comments (from # to the end of the line) are left out, nothing else is, and tokens keep their order, text, line and "
     "column. Text that is no token is an error, and literals have the value written (true and false as whole words, numbers exactly, or an error).",
     "inputs", "every text of a formula or code section",
     "The token rules overlap and are tried in an order; the tests lex a handful of short texts.",
     "src/parser/ast_lexer/mod.rs src/parser/ast_lexer/token_library.rs src/parser/ast_lexer/token_match.rs src/parser/token_matcher.rs",
     ["ordered table of regular expressions", "lexer loop", "conversion of literals"])

prop("C17", "Every definition of the code section is kept under its name, as written",
     "Each `name := expression` and `fn name(a, b) expression` of the code section defines exactly that expression, with exactly those parameters in that order, under "
     "exactly that name for this file and for files that use it, a later definition of a name replacing an earlier one; each `use` names one module to load, in order. "
     "Definitions may follow each other in any number; anything else in the code section is reported as an error, nothing is skipped.",
     "inputs", "every code section",
     "Definitions are a stream of tokens of any length and mix; the tests parse two or three definitions.",
     "src/parser/code_section_parser.rs src/scope/mod.rs src/module/mod.rs", ["parse_scope loop", "parameter loop", "define_function and define_variable"])

prop("C31", "A source file is divided at its first line of three dashes and nothing is lost",
     "The lines before the first line that consists of three dashes (whitespace around them aside) are the code section and all lines after it are the spreadsheet "
     "section, each read by its own parser as it is; without such a line the whole file is the spreadsheet section. Positions in the spreadsheet section count the lines above it.",
     "inputs", "every source file",
     "Files are unbounded and the separator may occur anywhere, in any spacing, several times or never; tests use three files.",
     "src/source_code/mod.rs src/source_code/try_from.rs src/spreadsheet/mod.rs", ["SourceCode::new", "Spreadsheet::parse", "SourceCode::try_from"])

prop("C15", "Variables and user-defined functions are expanded everywhere in a formula",
     "Compiling a formula replaces every occurrence of a defined variable by its value and every call of a defined function by the function's body with each parameter replaced by "
     "its argument (all at once), wherever in the formula they occur and however deeply definitions use each other, until none is left; a call with a wrong number of arguments is an "
     "error that says which numbers. Parameters shadow variables, everything else in the formula stays as it is, and definitions that refer to themselves do not hang the compiler.",
     "inputs", "every formula and set of definitions",
     "Expressions nest and definitions chain without bound; the tests evaluate a few one-level formulas.",
     "src/ast/eval.rs src/ast/references.rs src/ast/node.rs src/ast/variable_value.rs",
     ["Ast::eval loop", "extract_dfs", "replace_variables", "call_function"])

prop("C16", "A filled row is repeated exactly as often as asked for, in its place",
     "A row with a fill of N appears N times in the compiled sheet, each copy with all of its cells and options, between the same neighbours; a fill without a number repeats "
     "its row until the sheet has 1000 rows, all other rows counted. Other rows appear once and in order, every copy belongs to a range of exactly the copies, a second "
     "fill without a number is an error, and fills are expanded before any formula is evaluated.",
     "inputs", "every sheet with any number of fills of any size in any place",
     "The rows, fills and amounts are unbounded and interact through the row count; the tests use five sheets.",
     "src/spreadsheet/mod.rs src/cell_options/fill/mod.rs src/compiler/mod.rs src/module/mod.rs",
     ["eval_fills loop", "rows_left_over", "has_multiple_infinite_expands", "Compiler::eval"])

prop("C22", "A variable bound to a cell or row stands for its place in the written sheet",
     "A variable bound to a cell stands for that cell's address, or, in a fill, for the cell of that column in the row it is used in, or outside of the fill for the column's whole range "
     "of copies; a variable bound to a row stands for the row, in a fill for the row it is used in, outside of it for all rows of copies. Every formula of every cell is evaluated once, at its own "
     "place, with the variables of the sheet, the code section and the command line, and nothing but formulas changes.",
     "inputs", "every sheet, fill, position and variable",
     "The meaning depends on two positions and a fill of any size and place; the tests try a few positions.",
     "src/ast/variable_value.rs src/spreadsheet/mod.rs src/row/mod.rs src/module/mod.rs src/cell_options/fill/into.rs",
     ["VariableValue::into_ast", "Spreadsheet::variables", "Row::eval", "Module::eval_spreadsheet"])

prop("C10", "Reusing object files never changes what is compiled",
     "Compiling with object files left by earlier runs gives what compiling everything from source would: an object file is used only if it was made from that same source file by this version of the compiler or a "
     "newer one, is not older than the source, and no module it depends on, however indirectly, has been compiled anew. Neither --no-cache nor key/values given on the command line ever use the main file's object, "
     "an unreadable one is ignored, and modules compiled from source leave a new one.",
     "histories", "every history of compilations, edits of any of the modules, and changes of the command line",
     "What is on disk depends on the whole history of edits and runs and on every path of the dependency graph; the tests load a module once.",
     "src/compiler/mod.rs src/module/try_from.rs src/module/mod.rs src/module_loader/mod.rs src/source_code/mod.rs src/compiler/compiler_error.rs",
     ["Module::load_from_cache", "load_main_from_cache", "reload modified dependents", "write_object_file"])

prop("C11", "Modules see their own definitions and those of the modules they use",
     "A module that uses another one has all functions and variables which are defined there, with the meaning they have there: evaluated with that module's own definitions and those that it uses. "
     "It gets nothing which the other one only uses itself, and nothing replaces its own definitions. `use x` means the file x.csvpp beside the using one, every module however indirectly used is loaded, and, unless modules use each other, "
     "evaluated before those which use it.",
     "histories", "every graph of modules, with any definitions, loaded in any order by any number of threads",
     "The graph of modules is unbounded and its modules load concurrently; the tests load one or two modules without any dependencies.",
     "src/module_loader/mod.rs src/scope/mod.rs src/module_path/mod.rs src/module_path/try_from.rs src/module/mod.rs src/compiler/mod.rs",
     ["Scope::merge", "eval_dependencies", "load_dependency_graph", "load / load_module", "merge_direct_dependencies"])

prop("C13", "Every failure is reported and nothing goes on as if it had not happened",
     "Whenever a step of a compilation fails - reading, decoding or writing a file, parsing any part of a source or option, evaluating a formula, loading a module, a request to Google, a backup - "
     "the whole run fails: the error's message, with everything it knows about its place, is printed and the exit status is not zero. A module that cannot be loaded is reported, "
     "each of them if there are several. Besides a file that does not exist yet and an unreadable object file no error is ignored.",
     "inputs", "every failing step, at any point of a run, alone or together with others",
     "Errors can occur at hundreds of calls, most of which (I/O, locks, requests) no unit test makes fail.",
     "src/main.rs src/module_loader/mod.rs src/error/display.rs src/row/mod.rs src/module/mod.rs src/target/google_sheets/mod.rs src/target/csv/mod.rs src/parser/cell_parser/validate.rs",
     ["main", "load_module / merge_direct_dependencies", "Display for Error", "every call which returns a Result"],
     technique="interprocedural error-flow analysis of MIR: each fallible call's Err must force the function's error result, its panic or its entry in a collection checked to become the result")

prop("C28", "Every command line option has exactly its documented effect",
     "Each option has its documented letter, name and default; -b asks for a backup, -s keeps existing values, --no-cache ignores object files, -x and -y are the offsets, -n (or else the source "
     "file's name) is the sheet's name, each -v raises the log level by one and a fifth is an error, -k name=value defines the parsed value. -g takes ids made of letters, digits, - and _, and -o chooses the "
     "kind of output by the file's extension in any case; any other id or extension, or neither option, is an error. The Google credentials are the given ones, else the environment's, else the default "
     "ones, and must exist.",
     "inputs", "all combinations of options and values",
     "Options are combined freely and their values are arbitrary text; the tests construct two or three combinations in memory and never parse a command line with values.",
     "src/cli_args.rs src/config/mod.rs src/config/try_from.rs src/compiler/try_from.rs src/output/mod.rs src/output/try_from.rs src/logger.rs src/parser/ast_parser.rs src/target/google_sheets/credentials.rs",
     ["CliArgs", "TryFrom<&CliArgs> for Config / Output / Compiler", "u8_into_level_filter", "parse_key_value_str", "from_filename / supports_extension", "from_google_sheet_id", "Credentials::try_from"],
     technique="abstract evaluation of MIR: the builder chain of the command line's definition, and decision tables of the settings per option value, extension and character")

prop("C12", "Loading modules in parallel neither deadlocks nor races, and ends",
     "However the threads which load a program's modules are scheduled, no thread waits for a lock which it holds itself or which another one holds that waits for it, every thread is waited for, "
     "and each module is loaded once: no decision about what the threads share is made on what may have changed since. No borrow fails at run time. Loading comes to an end: modules which use each other are not loaded again and again, "
     "and whatever has been read from its source is not reloaded.",
     "schedules", "every interleaving of the loading threads, for every graph of modules, with any of them failing or out of date",
     "A test sees one schedule of a few threads; a reader blocked behind a waiting writer, or two threads which both find a module missing, show only in rare ones.",
     "src/module_loader/mod.rs src/module/mod.rs src/error/mod.rs src/runtime.rs src/parser/ast_lexer/mod.rs src/compiler/mod.rs",
     ["load / load_module", "load_dependency_graph", "dirty_nodes / propagate_dirty_flag / reload_dirty_modules", "eval_dependencies", "every lock(), read(), write() and borrow()"],
     technique="lock and borrow analysis of MIR: guards live at each call against all acquisitions reachable from it, lock order, spawn/join, check-then-act under separate acquisitions; value-flow of the reservation and reload loop")

prop("C32", "The values of cell options are read as they are written",
     "Inside [[...]] an option's name, identifier, number, date, color, reference or text is exactly the longest piece of the source which has its form, without the spaces before it, and reading goes on right behind it. "
     "A quoted text may contain any character; '' and a backslash before a character stand for the character itself, and a text that is not closed is an error. Numbers, dates and colors have the value their "
     "digits denote: a date is month/day/year or year-month-day.",
     "inputs", "all option texts, with any characters, escapes, spaces and lengths",
     "The tests lex a dozen ASCII examples; escapes, non-ASCII characters and ends of input in every state of the hand written scanners are not among them.",
     "src/parser/cell_lexer/mod.rs src/parser/cell_lexer/token_library.rs src/parser/cell_lexer/token_match.rs src/parser/cell_lexer/token.rs src/parser/token_matcher.rs src/date_time/try_from.rs",
     ["take_token and its take_* functions", "maybe_take_* functions", "token library", "TokenMatcher::try_match", "TokenMatch conversions", "date formats"],
     technique="abstract evaluation of MIR: each scanner's loop as a transducer, checked bisimilar to its specification; regular language equivalence of token expressions; value-flow of the matched text and the position")

prop("C14", "Compiling the same sources twice gives the same result",
     "With the same sources and options every run gives the same spreadsheet or the same error messages in the same order, however the hash tables are seeded and the threads scheduled: of several errors "
     "the same one is reported, modules are evaluated and their exports merged in a fixed order, and rows keep theirs. Nothing depends on the clock or on random numbers but the names of backups.",
     "schedules", "every seed of every hash table and every schedule of the threads, for every program",
     "A test run sees one seed and one schedule; a difference shows only when two runs are compared, for programs with several errors, cycles or modules.",
     "src/ast/references.rs src/ast/eval.rs src/module_loader/mod.rs src/module/mod.rs src/scope/mod.rs src/error/display.rs src/spreadsheet/mod.rs src/file_backer_upper.rs",
     ["every loop over a HashMap or HashSet", "eval_spreadsheet (parallel rows)", "load (threads)", "eval_dependencies", "Display for Error"],
     technique="order analysis of MIR: iterations of unordered collections and parallel iterators must commute or be collected into keyed or sorted collections; effects of threads; call graph reachability of clocks and random numbers")

prop("C23", "No input makes the compiler crash",
     "Whatever is in the sources, the command line, object files and existing outputs, the compiler ends with a result or an error message: it never aborts, be it by a failed unwrap, an index or cut of text out of range or inside a character, "
     "an overflowing computation, or a case that is declared impossible. Running out of memory or stack, a lock poisoned by an earlier crash and a machine without system certificates are not counted.",
     "inputs", "all sources, options and files, in particular ill-formed, empty, truncated and non-ASCII ones",
     "Every unwrap, index, slice and subtraction holds on the tests' inputs; each needs its own unusual one (a non-ASCII character, an empty field, a value at the end of the file) to fail.",
     "src/parser/cell_lexer/mod.rs src/parser/ast_lexer/mod.rs src/parser/token_matcher.rs src/source_code/mod.rs src/error/display.rs src/cell_options/fill/mod.rs src/spreadsheet/mod.rs src/rgb/try_from.rs src/module/mod.rs src/target/excel/mod.rs csvp/src/field.rs csvp/src/parser.rs",
     ["every unwrap, expect, panic!, unimplemented! and compiler_error", "every index, slice and split_at", "every arithmetic operation that may overflow"],
     technique="abstract evaluation of MIR: path conditions of every panic site, discharged by infeasibility, linear bounds and character-boundary rules, with demand-driven inlining of callees and callers")

prop("C09", "A run changes nothing but its output, its backup and the object files",
     "Apart from the output named on the command line, the copy of the earlier output made with --backup, and an object file beside each source (the source's name with the extension csvpo, never the source itself), "
     "a run creates, changes and deletes no file. It changes nothing in its environment and starts no other program, and it uses the network only when the output is a Google Sheet, and then only to read, copy and update that sheet.",
     "inputs", "all sources, file names, options and existing files",
     "A test looks at the files it expects; that nothing else is touched, under any file name or failure, is the absence of an effect anywhere in the program.",
     "src/main.rs src/lib.rs src/module/mod.rs src/source_code/mod.rs src/source_code/try_from.rs src/output/mod.rs src/output/try_from.rs src/target/csv/compilation_target.rs src/target/excel/compilation_target.rs src/target/open_document.rs src/target/google_sheets/mod.rs src/target/file_backer_upper.rs",
     ["write_object_file / object_code_filename", "CompilationTarget::write and write_backup of each target", "Output::try_from / from_filename / compilation_target", "backup_file", "Google Sheets and Drive clients"],
     technique="effect analysis over the whole program's MIR: every reference to a foreign function is classified; the targets of effects are evaluated from main and from each output's methods")

prop("C24", "Dates and times are read as they are written",
     "A date is read as year-month-day where it is written with dashes and as month/day/year where it is written with slashes, with a year of four digits or of two (which stand for a year of this or the last century), a time as "
     "hours:minutes, with seconds if there are any, and a date followed by a time as both; anything else is an error, never another date. Dates of the code section and of cell options are read alike, and messages show the date itself.",
     "inputs", "every date and time in the code section and in cell options",
     "Tests read a few dates; which of several formats accepts a text first decides what it means, and a format that also fits a text it was not made for shows only with such a date.",
     "src/date_time/try_from.rs src/date_time/display.rs",
     ["TryFrom<TokenMatch> for DateTime (both lexers)", "the lists of formats and their order", "Display for DateTime"],
     technique="abstract evaluation of MIR: every conversion of a token to a date; the formats that reach chrono's parsers and their order, the text parsed, and the kind and value of the result are compared with the specification")

prop("C33", "Errors name the file, the cell and the line they are in, and show that line",
     "An error in a cell names the cell's own address, every syntax error names the source file and the number (from 1) of the line its input is on, and a formula that cannot be evaluated the cell it was evaluated for. "
     "The excerpt shows that line with up to three lines before and after it, each under its own number, and marks the column of the input under it.",
     "inputs", "all sources with an error in the code section, the spreadsheet section, a cell's options or a formula, at any line and column, filled rows and the first and last lines included",
     "Tests compare a few messages of short sources; other lines, cells with quotes, options or line breaks before the mistake, filled rows and the ends of a source are not among them.",
     "src/source_code/errors.rs src/error/parse_error.rs src/error/display.rs src/cell/mod.rs src/row/mod.rs src/parser/ast_lexer/mod.rs csvp/src/field.rs",
     ["the functions of SourceCode which make errors", "highlight_line", "BadInput::position of the four kinds of tokens", "the Display implementations of Error and ParseError"],
     technique="abstract evaluation of MIR: the results of the functions which make errors, the excerpt as a concatenation of slices with the loop-carried line number, and the printed texts are compared as value-flow terms with the specification")
