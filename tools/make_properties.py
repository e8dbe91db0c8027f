#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
L = "mutagenyx_lib/src/"
B = "mutagenyx/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": hook},
    })

prop("C01", "Pretty-printed Solidity is the program the AST describes",
 "Pretty-printing a Solidity AST yields source text whose token sequence is exactly the program the AST describes: no token of a declaration, modifier, statement, expression, literal, type or inline-assembly item is dropped, duplicated, reordered, merged with its neighbour or altered. String contents survive with their exact bytes, documentation of contracts, functions, modifiers and state variables stays in the output as comments directly before what it documents, the license identifier stays in its own comment, and wrapping a long line never changes the tokens.",
 ["inputs", "programs"],
 "every Solidity AST built from the node kinds the compiler emits (source unit items, contract members, statements, expressions, types, Yul), of any nesting, identifier length and string content",
 "The unit tests never pretty-print a Solidity AST node; they only exercise the low-level text writer on a few literals.",
 [L+"solidity/pretty_printer.rs", L+"pretty_printer.rs", L+"node_printer.rs", L+"node_printer_helpers.rs", L+"pretty_print_visitor.rs"],
 [("one node printer per nodeType, selected by the printer factory", L+"solidity/pretty_printer.rs"),
  ("token writer with line wrapping", L+"pretty_printer.rs")],
 ["pretty-print sub-command output", "pretty_print_ast_to_stream"])

prop("C02", "Pretty-printed Vyper parses back to the program the AST describes",
 "Pretty-printing a Vyper AST yields text that, read with Vyper's indentation and operator-precedence rules, is the same program: the same declarations, decorators, defaults, statements in the same blocks, and expressions with the same operands, operators and grouping. Literals keep their exact values and docstrings keep their words.",
 ["inputs", "programs"],
 "every Vyper AST built from the node kinds the compiler emits, of any line length and operator mix, nested up to the depth where indentation fits the page",
 "No unit test pretty-prints a Vyper AST.",
 [L+"vyper/pretty_printer.rs", L+"vyper/operators.rs", L+"pretty_printer.rs"],
 [("one node printer per ast_type, selected by the printer factory", L+"vyper/pretty_printer.rs"),
  ("operator name to symbol map", L+"vyper/operators.rs")],
 ["pretty-print sub-command output", "pretty_print_ast_to_stream"])

prop("C03", "Every Solidity mutant is the original plus one edit its algorithm allows",
 "For every Solidity AST, algorithm, target and seed, the mutant is the original with exactly one edit applied, in one place, and that edit is one the named algorithm documents (an operator replaced by a different one of its own list, a right-hand side replaced by a literal in the range of its type, two same-typed arguments swapped, a condition negated or made constant, an expression statement removed, a statement wrapped unchecked, and so on). Everything else in the program, apart from the mutation comment (for which a single-statement body may gain braces), is unchanged, and the AST given as input is never modified.",
 ["inputs", "programs", "configurations"],
 "every Solidity AST x algorithm x candidate index x generator seed x function restriction",
 "The mutator unit tests only cover helper functions; no test runs a mutator on a node and looks at the result.",
 [L+"solidity/mutators.rs", L+"mutation_visitor.rs", L+"json_ast_language_interface.rs", L+"operators.rs", L+"json.rs"],
 [("one mutator object per algorithm: eligibility test plus edit", L+"solidity/mutators.rs"),
  ("index-th eligible node is the one edited, on a clone", L+"mutation_visitor.rs")],
 ["mutate_ast result vs input AST", "mutant file vs printed original"])

prop("C04", "Every Vyper mutant is the original plus one edit its algorithm allows",
 "For every Vyper AST, algorithm, target and seed, the mutant is the original with exactly one edit applied, in one place, and that edit is one the named algorithm documents; a deleted statement that was the only one in its block is replaced so that the block is still a valid non-empty block. Everything else in the program, apart from the mutation comment, is unchanged, and the AST given as input is never modified.",
 ["inputs", "programs", "configurations"],
 "every Vyper AST x algorithm x candidate index x generator seed x function restriction",
 "No test runs a Vyper mutator on a node and looks at the result.",
 [L+"vyper/mutators.rs", L+"vyper/operators.rs", L+"mutation_visitor.rs", L+"json_ast_language_interface.rs"],
 [("one mutator object per algorithm: eligibility test plus edit", L+"vyper/mutators.rs"),
  ("operator symbol <-> AST operator name map", L+"vyper/operators.rs")],
 ["mutate_ast result vs input AST", "mutant file vs printed original"])

prop("C05", "Reported candidates are exactly the mutable nodes, each reachable once",
 "For each algorithm the number of candidates reported for a program equals the number of program elements that meet the algorithm's documented eligibility rule, wherever they are nested. Each candidate index below that number mutates its own element (different indices never hit the same element), and an algorithm with no eligible element is reported as unavailable.",
 ["inputs", "programs"],
 "every Solidity and Vyper AST x every algorithm x every candidate index",
 "Tests traverse one four-node JSON object; eligibility rules, nesting and index order over whole programs are untested.",
 [L+"mutation_visitor.rs", L+"ast.rs", L+"json_ast.rs", L+"solidity/mutators.rs", L+"vyper/mutators.rs", B+"mutation_generator.rs"],
 [("counting visitor and mutating visitor share the traversal and the eligibility tests", L+"mutation_visitor.rs"),
  ("messages listing usable algorithms and the number of possible mutations", B+"mutation_generator.rs")],
 ["count_mutable_nodes", "'AST contains nodes for' and 'supports at most' messages"])

prop("C06", "A function restriction confines mutations to exactly the named functions",
 "When function names are given, every candidate counted and every mutation made lies inside the definition of a function with one of those names, and every eligible element inside those functions remains a candidate. Without function names the whole program is eligible.",
 ["inputs", "programs", "configurations"],
 "every program (including overloads, recursion, same-named variables, parameters, events and members) x every set of function names x algorithm x index x seed",
 "The permission tests only check the permission table itself, never a traversal of an AST with it.",
 [L+"mutation_visitor.rs", L+"permissions.rs", L+"json_ast_permitter.rs", L+"json_namer.rs", L+"solidity/language_interface.rs", L+"vyper/language_interface.rs", B+"mutation_generator.rs"],
 [("permission to mutate named nodes and their children during traversal", L+"mutation_visitor.rs"),
  ("function names turned into permissions", B+"mutation_generator.rs")],
 ["count_mutable_nodes", "mutate_ast", "mutants written with --function"])

prop("C07", "The same seed reproduces the same mutants byte for byte",
 "Running the tool twice, in different processes, with the same input, the same options and the same seed writes the same set of files with identical bytes and reports the same algorithms in the same order. The result for one input file does not depend on which other mutable input files are listed in the same run.",
 ["inputs", "programs", "configurations", "histories"],
 "every program x options x seed, over separate process runs and over the other inputs of the run",
 "Tests run in one process and never run the generator; iteration order of hash maps differs between processes.",
 [B+"mutation_generator.rs", L+"solidity/mutators.rs", L+"vyper/mutators.rs", L+"mutation.rs", L+"json_ast_language_interface.rs"],
 [("seeded Pcg64 passed through counting, selection and mutation", B+"mutation_generator.rs"),
  ("sorted list of usable algorithms", B+"mutation_generator.rs")],
 ["output directories of two runs"])

prop("C08", "A run writes distinct mutants, never more than requested or available",
 "For each input file the tool writes at most as many mutants as requested and at most as many as it reports the program supports, numbered consecutively from zero with no gaps, each produced by a requested algorithm. No two mutants of one algorithm in a run make the same edit to the same element, and the number written is exactly the smaller of requested and supported whenever candidates are plentiful compared with the request or very few (so that the bounded number of attempts suffices). A request above what is supported is reported, with the numbers, as lowered to it.",
 ["inputs", "programs", "configurations"],
 "every program x set of algorithms x requested count (below, at and above the supply) x seed",
 "No test runs the generator loop.",
 [B+"mutation_generator.rs", L+"mutator_result.rs", L+"solidity/mutators.rs", L+"vyper/mutators.rs"],
 [("per-algorithm quota bounded by the candidate count", B+"mutation_generator.rs"),
  ("duplicate detection on the recorded result of a mutation", B+"mutation_generator.rs")],
 ["mutant files and run messages"])

prop("C09", "Each mutant carries one comment that names and describes its mutation",
 "Every mutant written for a change inside a function contains exactly one mutation comment; it names the algorithm that made the change, describes the actual change, and stands directly before the statement (or definition) that holds the change; for swapped lines, before the first of them or before or at the start of their block. The comment is only a comment: removing it leaves exactly the mutated program, whatever text the changed code contains.",
 ["inputs", "programs"],
 "every program x algorithm x candidate x seed, both languages",
 "The comment tests insert one literal comment; none checks placement in a program or what a comment's text does to the output.",
 [L+"solidity/commenter.rs", L+"vyper/commenter.rs", L+"json_comment_inserter.rs", L+"json_comment_helpers.rs", L+"solidity/node_finder.rs", L+"vyper/node_finder.rs", L+"solidity/mutators.rs", L+"vyper/mutators.rs"],
 [("path from the root to the mutated node is used to find the enclosing statement list", L+"json_comment_inserter.rs"),
  ("comment node printers", L+"solidity/pretty_printer.rs")],
 ["mutant text vs printed original"])

prop("C10", "Validation saves a mutant only if the compiler accepted that very mutant",
 "With validation on, every mutant that is written was given to the language compiler as that same source text, with the same compiler settings, and accepted; a rejected mutant is never written and does not consume a number, and an accepted one is written. Without validation no mutant is compiled.",
 ["inputs", "programs", "fault_sequences", "configurations"],
 "every program x seed x sequence of compiler verdicts (accept, reject, crash, missing)",
 "No compiler is available to the tests; the validation path is never run.",
 [B+"mutation_generator.rs", L+"json_ast_language_interface.rs", L+"solidity/language_interface.rs", L+"vyper/language_interface.rs", L+"utility.rs"],
 [("mutant is printed to a temporary file, compiled, then written", L+"json_ast_language_interface.rs")],
 ["invocations seen by a recording compiler", "mutant files"])

prop("C11", "Only the requested output files are created; inputs are never touched",
 "A run creates or changes only its output files under the chosen output directory (mutants, the printed original, the saved configuration); when output goes to standard output it creates none. Input programs (source or AST), whatever directory they are in, are byte-identical afterwards, and no temporary files are left behind.",
 ["inputs", "configurations", "fault_sequences"],
 "every sub-command x input kind x input location x output option x compiler verdict",
 "No test runs a command against a file tree.",
 [B+"mutation_generator.rs", B+"pretty_printing.rs", L+"json_ast_language_interface.rs", L+"solidity/language_interface.rs", L+"vyper/language_interface.rs", L+"config_file.rs"],
 [("output names are built from the output directory and the input's base name", B+"pretty_printing.rs"),
  ("temporary source and AST files are removed after use", L+"json_ast_language_interface.rs")],
 ["snapshot of a scratch file tree before and after"])

prop("C12", "Compiler settings reach the compiler exactly as given",
 "Whenever the tool invokes a language compiler for a source file or a mutant, it runs the configured compiler and passes every configured setting (base path, include paths, allowed paths, remappings, stop-after stage; root path for Vyper) once, in the compiler's own syntax, and no setting of the other language. (When a Solidity mutant does not compile, it is tried once more with stop-after parsing, unless a stop-after stage is configured.) This holds whether settings come from the command line or a configuration file.",
 ["inputs", "configurations"],
 "every combination and multiplicity of compiler settings x source of the settings x sub-command x compiler version",
 "No compiler exists in the test environment, so command lines are never built in tests.",
 [L+"solidity/language_interface.rs", L+"vyper/language_interface.rs", B+"compiler_settings.rs", L+"compiler_details.rs", L+"solidity/compiler_details.rs", L+"vyper/compiler_details.rs", L+"utility.rs"],
 [("command line assembled from the settings table", L+"solidity/language_interface.rs")],
 ["argument vectors recorded by a stand-in compiler"])

prop("C13", "Configuration files override the command line and reproduce saved runs",
 "Every setting present in a configuration file takes precedence over the command line for that file, and seed, mutations, functions, output directory and compiler details it does not mention keep the command-line value (number of mutants, validation and printing of the original have their own defaults: 5, off, off). A configuration saved by a run, when used as input, reproduces that run's mutants exactly, and reading back a written configuration yields the same settings.",
 ["inputs", "configurations", "histories"],
 "every combination of settings, values and seeds, in the file and on the command line",
 "The configuration tests never load a file; save and reload are untested.",
 [L+"config_file.rs", B+"mutation_generator.rs", L+"preferences.rs"],
 [("configuration values replace the per-file parameters", B+"mutation_generator.rs"),
  ("configuration to JSON and back", L+"config_file.rs")],
 ["mutants from the command line vs mutants from the configuration file"])

prop("C14", "Inputs are recognised as what they are, or rejected with an error",
 "A file is treated as a configuration, as source, or as an AST of a language exactly when it is one: AST files of either language are recognised as that language whatever their name, source files by compiling them with that language's compiler, configuration files by extension and a supported language. Anything else, including any file that is not JSON or is JSON without the marks of a language, is reported as an error and produces no output.",
 ["inputs"],
 "every file content (valid ASTs, other JSON, mutated/truncated JSON, arbitrary bytes) x file name",
 "Tests do not recognise any file.",
 [L+"recognizer.rs", L+"language_interface.rs", L+"solidity/language_interface.rs", L+"vyper/language_interface.rs", L+"json_ast_language_interface.rs", L+"language.rs"],
 [("ordered attempts: configuration, source, AST", L+"recognizer.rs")],
 ["recognize_file", "sub-command output on arbitrary files"])

prop("C15", "No valid program makes counting, mutating or printing fail or hang",
 "For every valid AST of either language, every algorithm, every candidate and every seed, counting candidates, creating the mutant and printing it all complete without crashing, without an error and without looping forever.",
 ["inputs", "programs"],
 "every Solidity and Vyper AST (all literal forms, all type strings, any statement mix) x algorithm x candidate x seed",
 "Crashes depend on literal spellings, type strings and statement mixes that no test contains.",
 [L+"solidity/mutators.rs", L+"vyper/mutators.rs", L+"solidity/pretty_printer.rs", L+"vyper/pretty_printer.rs", L+"pretty_printer.rs", L+"json.rs"],
 [("eligibility tests are meant to imply that the edit can be made", L+"solidity/mutators.rs")],
 ["process exit, panic message, error result"])

prop("C16", "Wrapped text keeps every word and stays inside the page",
 "Text flowed by the printer keeps all its words in order and unbroken, starts every continuation line at the current indentation (followed by the given line start, if any), and keeps each line within the page width unless a single word is longer than the line. Token output keeps every token, in order and unbroken, whatever the page width.",
 ["inputs"],
 "every text, page width, indentation and start column",
 "The tests flow two fixed sentences at two fixed widths.",
 [L+"pretty_printer.rs", L+"string.rs"],
 [("column bookkeeping and line breaking", L+"pretty_printer.rs")],
 ["bytes written to the stream"])

prop("C17", "Algorithm names and selections mean the same everywhere",
 "Every algorithm the tool lists can be selected by exactly its listed name on the command line and in a configuration file, and then only that algorithm is used; selecting all is the same as selecting every listed name; unknown names select nothing. The listed and described algorithms are the same set, each with its summary, and the reported operators are those the algorithm actually uses.",
 ["inputs", "configurations"],
 "every algorithm, every subset of names, every order and repetition, arbitrary unknown names, any terminal width",
 "Tests check a few name conversions one at a time; they do not tie selection to what is used.",
 [L+"mutation.rs", L+"operators.rs", B+"mutations_info.rs", B+"mutation_generator.rs", L+"json_ast_language_interface.rs"],
 [("name <-> algorithm conversion and the description table", L+"mutation.rs")],
 ["algorithms -l / -d output", "run messages of mutate"])

prop("C18", "Pretty-print output is the same through every route, for every listed file",
 "The pretty-print command produces the same text for a file whether it writes to a directory, to standard output, or as the printed original of a mutation run, and whether the program is given as an AST or as source that compiles to that AST. Every file named on the command line is processed, in order, and a file that fails does not stop the others.",
 ["inputs", "configurations", "programs"],
 "every list of input files (valid and invalid, source and AST, both languages) x output option",
 "No test runs the pretty-print command.",
 [B+"pretty_printing.rs", B+"mutation_generator.rs", L+"json_ast_language_interface.rs", L+"solidity/language_interface.rs", L+"vyper/language_interface.rs"],
 [("file and stream printing share the visitor", L+"json_ast_language_interface.rs")],
 ["files written", "standard output"])

prop("C19", "Settings survive conversion to and from JSON and typed access",
 "Settings stored under a key are returned unchanged with their type by later reads, until overwritten or replaced; converting a settings table to JSON and back, or JSON to settings and back, preserves every supported value (booleans, strings, 64-bit signed integers, finite floats), nested table and list. Values settings cannot represent, and JSON that is not an object, are rejected rather than altered.",
 ["inputs", "histories"],
 "every sequence of typed writes and reads, every nesting of tables and lists, every JSON object",
 "The tests set and read one value of each type once.",
 [L+"preferences.rs", L+"json.rs", L+"config_file.rs"],
 [("typed value enum and conversions", L+"preferences.rs")],
 ["settings reads", "compiler-details in saved configurations"])

prop("C20", "Every change an algorithm documents can be produced by some seed",
 "No documented change is out of reach. For every program, over different seeds, a run uses every requested algorithm that has candidates and mutates every candidate; and a chosen candidate receives, for some seed, every change its algorithm documents for it: each other operator of the list, true, false and the negation of a condition, both boolean values and both negative and non-negative (or small and large) numbers on a right-hand side, an integer one larger, one smaller or random, any argument that may replace a call, any statement that may be deleted or wrapped, any two lines that may be swapped, and a swap among the arguments of each type that occurs twice.",
 ["inputs", "programs", "configurations"],
 "every program of either language x algorithm x candidate, over all seeds",
 "Reachability is a statement about all seeds; a test samples one.",
 [L+"solidity/mutators.rs", L+"vyper/mutators.rs", L+"operators.rs", L+"vyper/operators.rs", B+"mutation_generator.rs"],
 [("random choice inside each mutator", L+"solidity/mutators.rs and "+L+"vyper/mutators.rs"), ("random choice of algorithm and candidate", B+"mutation_generator.rs")],
 ["mutant texts over many seeds", "algorithms announced by runs"])

prop("C21", "A command line means the same however it is written",
 "Two command lines that ask for the same thing do the same thing, with the same reports, files and compiler runs: options in any order, in short or long form, with the value separate or attached, and with options left out that would only repeat their default (output directory out, one mutant, compilers solc and vyper). Selecting all algorithms takes precedence over named ones, and standard output over the output directory. Without a seed, runs differ.",
 ["inputs", "configurations"],
 "every command line of mutate and pretty-print, in every spelling and order",
 "No test runs the command line.",
 [B+"main.rs", B+"mutation_generator.rs", B+"pretty_printing.rs", B+"compiler_settings.rs"],
 [("command line definition with defaults", B+"main.rs"), ("precedence of options and the time-based seed", B+"mutation_generator.rs")],
 ["standard output, files and compiler invocations of the two runs"])

prop("C22", "Permissions answer exactly what was granted, and confine counting and mutating",
 "A permission is held exactly when a grant that was added, and not removed since, covers it: the same action and answer (allow or deny), and either any scope, or the same scope with the same or any name. Grants are independent of their order and of other grants. Candidates counted and mutants made under any set of grants are those in places that may be visited and mutated: everything for wildcard grants, the inside of a function whose children may be mutated, a function itself if its name may be mutated, and nothing without permission to visit.",
 ["inputs", "histories", "programs"],
 "every history of grants, removals and queries; every program of either language x set of grants",
 "No test covers permissions; the answers depend on the whole history and on where each element is nested.",
 [L+"permissions.rs", L+"json_ast_permitter.rs", L+"mutation_visitor.rs", L+"ast.rs"],
 [("matching of grants and queries", L+"permissions.rs"), ("permission checks while visiting", L+"mutation_visitor.rs")],
 ["answers to queries", "candidate counts and mutants under grants"])

prop("C23", "A run reports exactly the outputs it completed, even when writing fails",
 "Every output the tool announces is on disk in full, with the bytes an undisturbed run writes. When an output file (mutant, printed original, saved configuration, pretty-printed file) cannot be created or written in full, because a directory or a dead link is in its place, the output directory is not a directory, the disk is full or a size limit is reached, the tool reports an error and does not crash; mutants that come before the failing one are written and announced as usual, and pretty-print goes on with the other files. When the tool is killed during a run, every mutant announced until then is complete.",
 ["fault_sequences", "crash_points", "programs"],
 "every program x request x output that fails x way of failing (create, write, size) x point at which the run is killed",
 "No test makes a write fail or stops a run in the middle.",
 [B+"mutation_generator.rs", B+"pretty_printing.rs", L+"json_ast_language_interface.rs", L+"config_file.rs"],
 [("announcement follows the completed write", B+"mutation_generator.rs"),
  ("printed text is written in one checked write", L+"json_ast_language_interface.rs")],
 ["reports on standard output", "output directory after a failed or killed run"])

prop("C24", "A mutant differs from the printed original only where it was mutated",
 "Compare, line by line, a mutant with the pretty-printed original (from --print-original or from pretty-print): apart from the mutation comment, the only lines that differ are those of the statement, item or pair of statements the mutation changed. All other lines, before, between and after, are the same in wording, order, indentation and blank lines, and the changed lines start at the indentation of those they replace. A body without braces may get braces around it to hold the comment.",
 ["programs", "inputs"],
 "every program x algorithm x candidate x random draw x route to the printed original",
 "The tests compare whole outputs for single fixed nodes; whether unrelated lines stay as they are depends on the context of the mutated node and on line wrapping around it.",
 [L+"pretty_printer.rs", L+"solidity/pretty_printer.rs", L+"vyper/pretty_printer.rs", L+"json_comment_inserter.rs", B+"mutation_generator.rs", B+"pretty_printing.rs"],
 [("original and mutant are printed the same way", L+"json_ast_language_interface.rs"),
  ("the comment is the only addition", L+"json_comment_inserter.rs")],
 ["printed original", "mutant files"])

prop("C25", "The mutants depend on program, selection and seed, not on how a run is set up",
 "For one program, selection of algorithms and functions, number of mutants and seed, a run makes the same mutants in the same order however it is set up around that: whatever the name, folder and path of the input, given as source or as AST in any JSON spelling, with output to any directory or to standard output, over the files of an earlier run, with or without printing the original, saving the configuration, a configuration file that asks for the same, or a compiler that accepts every mutant. On standard output the mutants follow the reports, each in full, with nothing between them.",
 ["programs", "configurations", "inputs"],
 "every program x request x pair of ways to set the run up",
 "No test runs the tool as a whole, let alone twice in different ways.",
 [B+"mutation_generator.rs", B+"pretty_printing.rs", L+"recognizer.rs", L+"json_ast_language_interface.rs"],
 [("one generator per run decides algorithms, candidates and changes", B+"mutation_generator.rs"),
  ("loading a program from source or AST", L+"json_ast_language_interface.rs")],
 ["mutant files", "standard output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
