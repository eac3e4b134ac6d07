#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
L="mutagenyx_lib/src/"; B="mutagenyx/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Mutant budget: how many mutants a run writes and how they are numbered",
  "For every input file a run writes at most the requested number of mutants, at most as many as the file has mutation sites for the selected algorithms, and no algorithm contributes more mutants than it has sites. A duplicate or rejected candidate is replaced by another attempt, so that the smaller of these numbers is reached where each algorithm has few sites and every site gives mutants of its own. The files are numbered from 0 without gaps (skipping numbers already taken by another input of the same name), each is announced once with the algorithm that produced it, and the announced totals agree with the program and with what is on disk.",
  ["inputs","configurations","histories"],"all programs, algorithm selections, requested counts and seeds",
  "Tests never run the generator; the bound depends on the whole history of draws, duplicates and rejections.",
  [B+"mutation_generator.rs"],"random to-do list bounded by per-algorithm site counts, retry loop, running file counter",["output directory","standard output"])
p("P02","Mutants are distinct from each other and from the original",
  "Among the mutants one run writes for an input file no two are the same program, and none is the same program as the input, where comments and layout do not count.",
  ["inputs","configurations","histories"],"all programs, algorithm selections, counts and seeds",
  "Duplicates appear only for particular draws (symmetric swaps, equal operands, a replacement value equal to the old one), tests sample one draw per algorithm.",
  [B+"mutation_generator.rs",L+"mutator_result.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs"],"record of results already seen, consulted before writing",["output directory"])
p("P03","A fixed random seed reproduces the run exactly",
  "Two runs of the same command on the same files with the same seed produce the same set of output files with byte-identical contents and the same report, no matter when, in which process or from which output directory they run. The result for one file does not depend on which other files, all of them processable and with names of their own, are given on the command line or in the configuration.",
  ["inputs","configurations","histories"],"all programs, settings, seeds, repeated processes and file lists",
  "Tests run in one process once; hash ordering, shared generators or leaked state only differ between processes or file lists.",
  [B+"main.rs",B+"mutation_generator.rs",L+"mutation_visitor.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs"],"seeded generator cloned per file, ordered traversal",["output directory"])
p("P04","Validated runs only deliver mutants the compiler accepted",
  "When validation is requested every mutant file written has exactly the content that the configured compiler was given and accepted, and a candidate the compiler rejects is never written but another one is attempted in its place. When validation is not requested the compiler's opinion on mutants has no influence on the output.",
  ["inputs","configurations","fault_sequences"],"all programs and all patterns of compiler verdicts (accept/reject sequences, content-dependent verdicts)",
  "No test runs a compiler verdict sequence through the generator.",
  [B+"mutation_generator.rs",L+"json_ast_language_interface.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],"print candidate to temporary file, compile, write only on success",["compiler invocations","output directory"])
p("P05","Inputs are never touched and writes stay in the output directory",
  "No run modifies, replaces or deletes an input file, wherever the input lives, including the system's temporary directory and the output directory itself. Everything a run leaves behind lies in the requested output directory, which is created with missing parents when needed; temporary files are gone afterwards, and printing to standard output creates no output files.",
  ["inputs","configurations"],"all placements of inputs, output directories and temporary directory, all commands and options",
  "Tests neither run the commands nor compare the file system before and after.",
  [B+"mutation_generator.rs",B+"pretty_printing.rs",L+"json_ast_language_interface.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],"file naming for mutants, originals, configuration files and temporary compile files",["file system snapshot"])
p("P06","Each mutant is the original with exactly one change of the announced kind",
  "Every mutant written equals the input program except for one single mutation, at one place, of the kind that the announced algorithm describes. Mutants do not build on each other: each one starts from the unmodified input.",
  ["inputs","programs","histories"],"all programs, algorithms, seeds, and position of the mutant in the run",
  "Tests mutate single hand-written snippets in-process; they do not compare the delivered file with the whole original.",
  [B+"mutation_generator.rs",L+"mutation_visitor.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"solidity/pretty_printer.rs",L+"vyper/pretty_printer.rs"],"clone, mutate one indexed node, print",["output directory","standard output"])
p("P07","Every mutation site is counted once and can be mutated",
  "For each algorithm the number of mutations the tool offers for a program equals the number of places in the program where that algorithm applies, wherever they are nested. Asking for the k-th place mutates exactly one of these places, different k mutate different places, and so all of them are covered.",
  ["inputs","programs"],"all programs (including nesting inside any construct) and all algorithms",
  "Tests count sites in a few snippets only; applicability must agree between counting and mutating for every nesting.",
  [L+"mutation_visitor.rs",L+"visitor.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"json_ast_language_interface.rs"],"same applicability predicate evaluated in counting and mutation traversals",["site counts","mutated programs"])
p("P08","Operator-replacing algorithms stay inside their operator class",
  "The arithmetic, bitwise, bit-shift, comparison, logical and unary-operator algorithms each apply exactly to operators of their own class, replace one operator by a different one of the same class (Vyper unary operations are replaced by their operand), and change nothing else. Every other operator of the class, respecting prefix and postfix position, is a possible replacement.",
  ["inputs","programs"],"all operators, contexts, seeds, both languages",
  "Tests check a handful of operators with one seed each.",
  [L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"operators.rs",L+"vyper/operators.rs"],"per-class operator tables and random choice excluding the current operator",["mutated programs"])
p("P09","Swapping algorithms exchange exactly two eligible things",
  "Swapping lines exchanges two different statements of one block and never moves a return statement; swapping function arguments exchanges two arguments of one call (in Solidity two of the same type); swapping operator arguments exchanges the two operands of one non-commutative operation. Everything else, including the order of all other parts, is unchanged; every eligible pair of lines can occur, and every group of arguments of the same type can be chosen.",
  ["inputs","programs"],"all blocks, calls and operations, all seeds, both languages",
  "Pairs and their eligibility depend on arbitrary statement lists and argument types; tests use one list.",
  [L+"solidity/mutators.rs",L+"vyper/mutators.rs"],"index selection with exclusion of returns, grouping by argument type",["mutated programs"])
p("P10","Statement and call algorithms make exactly their documented rewrite",
  "Deleting a statement removes exactly one statement (the body staying syntactically valid and, for Vyper functions with a result, still returning a value of that type); the condition algorithms set an if condition to true, false or its negation and negate a require condition; the unchecked-block algorithm wraps exactly one statement; the call algorithms replace one call by one of its non-literal arguments, or delegatecall by call. Nothing else changes, and each listed alternative can occur.",
  ["inputs","programs"],"all statements, bodies, calls and conditions, all seeds, both languages",
  "Tests look at one example per algorithm.",
  [L+"solidity/mutators.rs",L+"vyper/mutators.rs"],"node rewrites per algorithm",["mutated programs"])
p("P11","Value algorithms replace one value by a legal different one",
  "The integer algorithm turns one integer literal into its successor, its predecessor or a random integer, for literals of any notation and magnitude the language allows. The assignment algorithm replaces the right-hand side of one assignment by a literal which, in Solidity, is a value of the assigned type and range; both truth values can occur for booleans.",
  ["inputs","programs"],"all literals, assigned types, seeds, both languages",
  "Value ranges and notations are unbounded; tests use small decimal constants.",
  [L+"solidity/mutators.rs",L+"vyper/mutators.rs"],"literal parsing and random value generation by type",["mutated programs"])
p("P12","Mutation stays inside the named functions and covers all of them",
  "When function names are given, every mutation lies inside a function with one of these names, and every site inside such a function is available, also when the function calls itself, is overloaded, or other declarations share the name. Without names the whole file is available.",
  ["inputs","programs","configurations"],"all programs, name lists, positions of calls and declarations",
  "Whether a site is permitted depends on everything visited before it; tests use one flat function.",
  [L+"permissions.rs",L+"permit.rs",L+"json_ast_permitter.rs",L+"mutation_visitor.rs"],"permission flag maintained while walking the tree",["site counts","mutated programs"])
p("P13","Each mutant records its mutation in exactly one harmless comment",
  "A mutant contains exactly one comment added by the tool, placed directly in front of the statement or declaration containing the change (at the top of a block whose own list of statements changed, in place of a deleted statement), which names the algorithm and quotes the code before and after. The comment never swallows or alters program text; only a change outside any contract or function body may go without one.",
  ["inputs","programs"],"all programs, algorithms, nesting of the mutated place (single-statement bodies, else branches, try clauses, loops)",
  "Comment insertion rewrites the surrounding body differently for each construct; tests do not cover the combinations.",
  [L+"solidity/commenter.rs",L+"vyper/commenter.rs",L+"solidity/node_finder.rs",L+"vyper/node_finder.rs",L+"json_comment_inserter.rs",L+"mutation_visitor.rs"],"path from root to the mutated node, nearest enclosing body",["mutated programs"])
p("P14","Printing a Solidity program preserves the program",
  "The Solidity source printed for a syntax tree has exactly the tokens of the program the tree describes: every declaration, statement, expression, specifier and literal appears once, in order, and with the bracketing the tree requires. Nothing is dropped, invented or merged with a neighbouring token.",
  ["inputs","programs"],"all syntax trees of the supported Solidity constructs in any combination",
  "Tests print a few snippets; fidelity must hold for every combination of optional parts.",
  [L+"solidity/pretty_printer.rs",L+"node_printer.rs",L+"node_printer_helpers.rs",L+"pretty_print_visitor.rs"],"visitor with one printer per node type",["printed source"])
p("P15","Printing a Vyper program preserves the program",
  "The Vyper source printed for a syntax tree has exactly the tokens and the indentation structure of the program the tree describes: every declaration, statement, expression, decorator, annotation and literal appears once, in order, and with the bracketing the tree requires. Statements never break over lines in a way that changes the program.",
  ["inputs","programs"],"all syntax trees of the supported Vyper constructs in any combination",
  "Tests print a few snippets; fidelity must hold for every combination of optional parts.",
  [L+"vyper/pretty_printer.rs",L+"node_printer.rs",L+"node_printer_helpers.rs",L+"pretty_print_visitor.rs"],"visitor with one printer per node type",["printed source"])
p("P16","Text layout keeps every token and word whole and always finishes",
  "For any sequence of tokens, flowing texts, spaces, line breaks and indentation changes the printer outputs all of the text in order and adds only whitespace (and the comment marker at the start of continued comment lines). A token is never broken, flowing text wraps only between words at the page width, a line starts at the indentation then in force, matching increases and decreases of indentation restore the previous one, and the printer finishes for every page width, positive tab width and text.",
  ["inputs","histories"],"all sequences of printer operations, texts, page widths, tab widths and indentation depths",
  "The printer state depends on the whole operation history; tests try a few short sequences.",
  [L+"pretty_printer.rs",L+"preferences.rs"],"column and indentation bookkeeping",["printed text"])
p("P17","Settings from command line and configuration files combine as documented",
  "A configuration file's values govern the files it lists and command-line values apply wherever the configuration is silent, with the documented defaults where both are silent; the compiler settings of a configuration count as one value. The settings of one configuration file or input never leak into the processing of another.",
  ["configurations","histories"],"all subsets of settings in configuration and command line, all sequences of files",
  "Tests parse one configuration; leakage needs sequences of files.",
  [B+"main.rs",B+"mutation_generator.rs",B+"generator_parameters.rs",L+"config_file.rs"],"parameters assembled per file from defaults, command line and configuration",["mutants produced","standard output"])
p("P18","A saved configuration reproduces the run it was saved from",
  "Running the tool on the configuration file saved by a run, in the same working directory, produces the same mutants (same number, names and contents) as the original run. The saved file is itself recognised as a configuration and carries the effective settings including the seed actually used.",
  ["configurations","inputs"],"all option combinations, seeds (including time-derived and negative ones), both languages",
  "No test saves and replays a configuration.",
  [B+"mutation_generator.rs",L+"config_file.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],"effective parameters serialised to JSON",["configuration file","output directory"])
p("P19","Input files are recognised by content and bad inputs fail cleanly",
  "A file is treated as configuration, Solidity or Vyper, source or syntax tree, according to its content and what the compilers accept (configurations before sources before syntax trees), and its mutants get the extension and syntax of their language. An input that is missing, a directory, malformed, unrecognised or without anything to mutate is reported as an error that names the problem, and there is no crash and no mutant file for it. A syntax tree from which parts are missing never crashes the tool.",
  ["inputs","configurations","fault_sequences"],"all file contents, extensions and compiler verdicts",
  "Tests recognise three fixed files.",
  [L+"recognizer.rs",L+"language_interface.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",B+"main.rs"],"recognition chain configuration, source, syntax tree",["standard output","output directory"])
p("P20","Algorithm names are accepted, listed and described consistently",
  "Every algorithm the tool lists is accepted by name and selects that algorithm, every algorithm has a description, which names the operators it acts on if any, and the reports of a run use the same names. Requesting all algorithms means every one that the language of the file supports; requested algorithms that do not exist or do not apply are left out without affecting the others.",
  ["configurations","inputs"],"all subsets of names (valid, invalid, repeated), both languages",
  "Tests do not tie listing, parsing, selection and reporting together.",
  [L+"mutation.rs",B+"mutations_info.rs",B+"mutation_generator.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],"name/type conversion and per-language mutator factories",["standard output"])
p("P21","Compiler settings reach the compiler unchanged and in one consistent form",
  "Every invocation of a compiler, whether to recognise a file, obtain its syntax tree or validate a mutant, uses the compiler executable, base path, include paths, allowed paths, remappings, stop stage or root path configured for that run, with each value intact and the allowed paths as one list. Nothing that was not configured is passed, other than what selects the task itself (including a stop after parsing in a second attempt when a compilation fails).",
  ["configurations"],"all combinations and multiplicities of compiler settings, from command line or configuration",
  "No test inspects a compiler command line.",
  [B+"compiler_settings.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"config_file.rs"],"argument vector assembled from preferences",["recorded compiler invocations"])
p("P22","Mutating never crashes, hangs or aborts on a valid program",
  "For every well-formed syntax tree, every algorithm, every place it offers and every seed, producing and printing the mutant terminates successfully. One awkward construct never prevents the other mutants of the file from being produced.",
  ["inputs","programs"],"all programs, algorithms, places and seeds",
  "Crashes and endless loops need specific literals, types or statement lists.",
  [L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"solidity/commenter.rs",L+"vyper/commenter.rs",L+"mutation_visitor.rs",L+"pretty_printer.rs"],"mutators' selection loops, parsing and printing",["exit status","mutated programs"])
p("P23","Pretty-printing handles every given file and every output form alike",
  "The pretty-print command prints every file it is given, in order, to the requested directory under its own name with the extension of its language, or to standard output; the text is the same in both forms and the same as the original printed alongside mutants. A file that cannot be printed, or whose place is taken by an input or by another file, is reported, and nothing else is left out because of it.",
  ["inputs","configurations"],"all file lists, languages and output forms",
  "No test runs the command.",
  [B+"pretty_printing.rs",B+"mutation_generator.rs",L+"json_ast_language_interface.rs"],"loop over files, print to stream or file",["standard output","output directory"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
