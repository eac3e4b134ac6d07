PENDING = "specification and binding not finished yet"
T = "TLA+ specification checked with TLC; recorded behaviour of the real code judged against it (trace validation)"
TRUST = " Trusts the lexer that turns printed text into tokens, the tree-to-JSON conversion, and TLC. Bounded: programs drawn from the specification's grammar plus all pairs of constructs, finitely many draws per place."
for i in ["P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P22"]:
    NOTES[i] = (T, "Programs are generated by TLC from the grammar of the specification, the tool mutates every place with every algorithm, and TLC decides for each mutant whether it is an alternative the specification allows at that place." + TRUST)
NOTES["P14"] = NOTES["P15"] = (T, "The specification's unparser gives the tokens each tree must have; TLC compares the printed text of generated programs with them." + TRUST)
G = "The run-level specification (Generator) is model-checked for all small programs, compilers and draws (GeneratorMC); recorded runs of the command line tool with a stand-in compiler are replayed event by event against the same guards."
for i in ["P01", "P02", "P04"]:
    NOTES[i] = (T, G + TRUST)
NOTES["P03"] = (T, "Recorded sessions and repeated runs are judged against the specification that a session is the sum of its jobs and that a run is a function of command, content and seed." + TRUST)
NOTES["P17"] = (T, "Settings is model-checked for all small command lines, configurations and orders (SettingsMC); sessions generated by TLC are run and compared with the runs of the jobs the specification computes." + TRUST)
NOTES["P05"] = (T, "Scenes generated by TLC (where inputs, outputs, temporary directory, older files and links lie, and how paths are spelled) are run; the Files specification says which paths a run may create or change and judges the file system before and after." + TRUST)
NOTES["P16"] = (T, "The Layout specification says which texts are a correct layout of a sequence of printer operations; a reference printer is model-checked against it (LayoutMC) and texts of the real printer for all short and many long operation sequences are judged." + " Trusts TLC and the harness that calls the printer. Bounded: all sequences of the shortest lengths over a small alphabet, random ones beyond.")
NOTES["P18"] = (T, "SettingsMC checks that a saved configuration yields the same effective settings; recorded runs are repeated from the configuration they saved and judged equal (Saved)." + TRUST)
NOTES["P19"] = (T, "Recognition is model-checked step by step for all kinds of files and compilers (RecognizeMC); files of all kinds generated by TLC are given to the tool with stand-in compilers of all behaviours, and damaged trees to its library; the Recognize specification judges language, form, errors and results." + TRUST)
NOTES["P20"] = (T, "Requests are model-checked name by name (NamesMC); the lists the tool shows at many widths and the reports and mutants of runs with valid, invalid and repeated names are judged against Names and the run-level specification." + TRUST)
NOTES["P21"] = (T, "Calls says with which arguments each kind of compiler call must be made; it is model-checked (CallsMC) and every call recorded by the stand-in compilers, for settings generated by TLC, is judged against it." + TRUST)
NOTES["P23"] = (T, "Printing lists of files is model-checked for all short lists (PrintingMC); lists generated by TLC are printed to directories and standard output and judged against the files printed alone and beside mutants, whose texts are judged against the specification's unparser." + TRUST)
