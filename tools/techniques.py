T.update({
 "C04": ("property-based testing: generated Vyper ASTs and (algorithm, index, seed) requests; each mutant is read back and matched against the trees of all documented single edits", "random programs and requests; the whole mutant is compared; not exhaustive"),
 "C02": ("property-based testing: generated Vyper ASTs printed by the tool, read back by an independent tokenizer and parser, trees compared", "random programs over the whole AST grammar; not exhaustive"),
 "C03": ("property-based testing: generated ASTs and (algorithm, index, seed) requests; each mutant is matched against the set of all documented single edits of the original", "random programs and requests; the whole mutant text is compared; not exhaustive"),
 "C05": ("property-based testing: candidate counts against an independent eligibility model; every index mutated and matched one-to-one to eligible nodes", "random programs; all indices of sampled algorithms"),
 "C06": ("property-based testing: as C05 restricted to generated function lists, with name clashes", "random programs and function lists"),
 "C09": ("property-based testing: generated mutants, comment position and content matched against the pattern of the edit", "random programs and requests"),
 "C15": ("property-based testing with hostile generators: counting, mutating and printing must end without error, panic or CPU limit", "random programs including edge shapes; CPU limit stands for non-termination"),
})
T.update({
 "C16": ("model-based property testing: generated sequences of printer operations against a reference model of lines, indentation and flow text", "random operation sequences, page widths and texts; not exhaustive"),
 "C19": ("stateful model-based property testing: generated operation histories on Preferences against a reference tree, with JSON round trips", "random histories; not exhaustive"),
})
T.update({
 "C07": ("property-based testing: differential runs of the real binary in separate processes, in different places and input lists, on generated programs and options", "random programs, options, seeds and input lists; each run repeated and files compared byte for byte"),
 "C08": ("property-based testing: generated runs of the real binary; counts, numbering and distinctness checked against an independent candidate model", "random programs, algorithm sets, requested counts and seeds"),
 "C10": ("property-based testing with fault injection: generated runs against a recording stand-in compiler with generated verdicts, written mutants matched to accepted compilations", "random programs and verdict sequences (accept, reject, parse-only, crash, missing)"),
 "C11": ("property-based testing with fault injection: generated file trees and commands, snapshot of the whole tree before and after", "random trees, commands, input places and compiler behaviours"),
 "C12": ("property-based testing: generated settings from the command line and configuration files; argument vectors recorded by a stand-in compiler parsed by an independent reader", "random combinations and multiplicities of settings, both languages"),
 "C13": ("property-based testing: configuration round trip, saved-run replay and command-line precedence as differential runs of the real binary", "random settings, values and seeds"),
 "C14": ("property-based testing and mutation fuzzing: generated and corrupted file contents against an independent classifier, in process and through the binary, with compiler faults", "random contents, names and compiler faults"),
 "C17": ("property-based testing: listings on generated terminal widths compared with the library tables and the model; generated selections compared with what runs use", "random widths, selections and near-miss names"),
 "C18": ("property-based testing: differential runs over output routes on generated lists of valid and invalid files", "random file lists, kinds and routes"),
})
T.update({
 "C20": ("property-based testing: for generated programs and candidates, mutants over many seeds are matched to an independent list of documented changes until all are seen (failure probability of a correct tree below 1e-20 per case)", "random programs and candidates of both languages; runs of the real binary for the choice of algorithm and candidate"),
 "C21": ("property-based testing: metamorphic, two generated spellings of one request are run and their reports, files and recorded compiler runs compared", "random requests x order, short/long forms, attached values, omitted defaults, overridden options"),
 "C22": ("model-based property-based testing: histories of grants, removals and queries against a list model; candidate counts under generated grants against an independent count, mutants against those of the equivalent function restriction", "random histories; random programs of both languages x random grants of every scope"),
})
T.update({
 "C23": ("property-based testing with fault injection: generated runs repeated with an output that cannot be created or written, a file size limit, or the tool killed at a chosen compilation; reports and files compared with the undisturbed run", "random programs and requests x kind and place of the fault; one faulty target or one size limit per run"),
 "C24": ("property-based testing with a differential oracle: generated programs, each mutant compared line by line with the printed original, by library calls and through the real binary", "random programs, two mutants per algorithm and program; lines compared exactly outside the changed statement"),
})
T.update({
 "C25": ("property-based testing: metamorphic, a generated request is run plainly and in a generated other set-up (input name and form, output route, side outputs, validation, configuration file) and the mutants compared", "random programs and requests of both languages x random combinations of eleven differences"),
})
