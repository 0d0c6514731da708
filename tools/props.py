# ---------------------------------------------------------------- eager arithmetic
BOX = "unsat answers are refuted only by solutions inside the searched box; the vendored SAT solver is trusted"
prop("A01", "Linear integer arithmetic verdicts and models are correct",
     "For every quantifier-free linear integer formula the solver accepts, the answer is sat exactly when the formula has an integer solution. A sat answer comes with a model, and evaluating the original assertions under that model yields true.",
     ["inputs"], "every conjunction, pair and triple of linear atoms in any layout of terms across the relation (sums, differences, constants, repeated and cancelling variables)",
     "Existing tests solve five fixed formulas; the canonicalisation of repeated, moved, negated and cancelling terms and the encoding of each relation depend on the shape and sign of every coefficient.",
     [EA+"canonicalize.rs", EA+"encoding.rs", EA+"stats.rs", EA+"lib.rs"],
     [("canonicalisation to sum >= constant", EA+"canonicalize.rs Canonicalizer"), ("two's complement encoding and adders", EA+"encoding.rs"), ("model decoding", EA+"lib.rs Solution::decode")],
     "exhaustive bounded enumeration of formulas, each solved by the real code in a deterministic child process and judged by a reference interpreter",
     note="Every formula of the bounded families is solved by the real library; models are evaluated by an independent interpreter and unsat answers refuted by exhaustive search of a box. " + BOX + ".",
     observe=["solve_with_varisat() result", "decoded model commands"])
prop("A02", "The CNF denotes exactly the formula's solutions within the bit width",
     "Every satisfying assignment of the clauses given to the SAT solver decodes to a model of the input formula. Every solution of the formula whose values fit the chosen bit width is decoded from some satisfying assignment.",
     ["inputs", "histories"], "every assignment the SAT solver may legitimately return, for every formula of the enumerated families",
     "Tests see the one assignment minisat or varisat happens to return; a different solver may return any other one, so decoding and clause completeness must hold for all of them.",
     [EA+"encoding.rs", EA+"lib.rs"],
     [("Tseitin clauses of bit-level addition and comparison", EA+"encoding.rs"), ("decoding of an assignment", EA+"lib.rs")],
     "explicit-state enumeration of all CNF models through a scripted SAT solver driving the real solve()",
     note="All models of the CNF are enumerated (up to 3000 per formula) and fed back through the real decoder; every in-width solution must appear. The range per variable comes from the tool's own printed width.",
     observe=["SAT solver stdin", "decoded models"])
prop("A03", "Uninterpreted functions behave as functions",
     "A formula with uninterpreted functions and predicates is answered sat exactly when some functions of the declared sorts satisfy it. In the reported model every function is defined so that equal arguments give equal results and all assertions hold.",
     ["inputs"], "every combination of literals over nullary to binary functions with nested, shared, equal and Boolean arguments and results",
     "Tests contain a single formula with functions; consistency constraints are per pair of applications and argument position, so omissions only show for particular sharing patterns.",
     [EA+"encoding.rs", EA+"lib.rs"],
     [("Ackermann constraints per pair of applications", EA+"encoding.rs"), ("function model reconstruction", EA+"lib.rs")],
     "exhaustive bounded enumeration of formulas with reference-interpreter oracle and lazy enumeration of function tables",
     note="Function tables over [-2,2] are enumerated lazily to refute unsat answers; printed define-funs are evaluated for sat answers. " + BOX + ".",
     observe=["solve_with_varisat() result", "define-fun bodies of the model"])
prop("A04", "The bit width is large enough and follows the documented formula",
     "The number of bits chosen for integer variables is large enough that every satisfiable formula has a solution within it, however large its smallest solution. The reported statistics (variables, constraints, largest coefficients and constants, equality or difference fragment) give exactly the documented bound.",
     ["inputs"], "every member of parametrised families of satisfiable formulas whose smallest solutions are as large as possible, and every partition's printed statistics",
     "Tests use small values which fit in any width; an insufficient bound only turns sat into unsat for formulas whose smallest solution nearly exhausts it.",
     [EA+"stats.rs", EA+"encoding.rs"],
     [("statistics collection per partition", EA+"stats.rs Stats"), ("bound formulas", EA+"stats.rs"), ("partitioning of variables by union-find", EA+"stats.rs")],
     "exhaustive bounded enumeration of extremal formula families, real solver verdict against construction-time witness; printed bound against the README formula",
     note="Families are satisfiable by construction; an unsat answer is definitely wrong. The bound is recomputed from the formula's own syntax by an independent implementation of the README.",
     observe=["verdict", "statistics printed on stderr"])
prop("A05", "Arithmetic is exact for integers of any magnitude",
     "Sums, differences, negations, constant multiples and comparisons of integers are computed exactly, for constants and values of any size. No magnitude leads to overflow, wrap-around, truncation or unbounded running time.",
     ["inputs"], "all pairs of operands around powers of two up to beyond machine word size under all operations and relations",
     "Unit tests use numbers of a few bits; carry, sign extension and machine-word conversions only fail at width boundaries.",
     [EA+"encoding.rs", EA+"canonicalize.rs", EA+"stats.rs", EA+"lib.rs"],
     [("constant bits and sign extension", EA+"encoding.rs"), ("double-and-add multiplication", EA+"encoding.rs"), ("decoding wide integers", EA+"lib.rs")],
     "exhaustive enumeration of boundary operand pairs against exact big-integer evaluation",
     note="For each operand pair both the equality with the exact result (sat) and its negation (unsat) are solved by the real code, so each verdict is fully determined.",
     observe=["verdict and model values"])
prop("A06", "Standalone encoding is well-formed, equisatisfiable and never silently cut",
     "Encoding a formula writes a well-formed DIMACS file whose header matches its clauses and which is satisfiable exactly when the formula is. Any failure while reading the problem or writing the encoding is reported as an error, never as success.",
     ["inputs", "fault_sequences", "crash_points"], "every formula of the families; every offset at which the sink or the source can fail; every behaviour of the scripted simplifier and solver behind the command line tool",
     "No test calls encode() or the command line tool; fault offsets multiply with formulas.",
     [EA+"lib.rs", EA+"main.rs", EA+"encoding.rs"],
     [("encode()", EA+"lib.rs"), ("DIMACS sink and header", EA+"encoding.rs"), ("command line: encode, solve, simplifier", EA+"main.rs")],
     "systematic fault-point enumeration over reader/sink offsets plus exhaustive CNF search", level="fault_enumeration",
     note="Strict DIMACS parser, exhaustive CNF search, faults at every relevant byte offset; the CLI binary is built from the current tree and run with scripted solvers in a scratch directory.",
     observe=["encode() output and result", "CLI exit status, stdout and files"])
prop("A07", "Bit-vector comparisons are decided exactly",
     "Formulas over unsigned bit-vector comparison are answered sat exactly when some bit-vector values satisfy them, for literals in any notation. The values in a reported model satisfy the formula when read most-significant bit first.",
     ["inputs"], "all pairs of literals and variables of widths 1 to 4 (selected wider ones) in all notations and Boolean combinations",
     "The only bit-vector test compares palindromic or single values; bit order and width errors need asymmetric operands.",
     [EA+"encoding.rs", EA+"lib.rs"],
     [("bvule encoding", EA+"encoding.rs"), ("literal bits", EA+"encoding.rs"), ("bit-vector solutions", EA+"lib.rs")],
     "exhaustive enumeration of all operand values with exact oracle",
     note="The domain is finite and enumerated completely, so both verdicts are decided exactly.",
     observe=["verdict and model values"])
prop("A08", "Boolean structure and derived syntax keep their meaning",
     "Connectives of any arity, if-then-else, let bindings, chained relations and distinct have their SMT-LIB meaning. Verdicts of a formula and of its negation, and models, agree with that meaning in every nesting.",
     ["inputs"], "every connective with 2 and 3 arguments over all atom choices, nested and shadowing let, integer and Boolean if-then-else, chained relations, under every pinned valuation",
     "Tests use and/or/not over two or three atoms; desugaring errors concern arity above two, polarity and shadowing.",
     [EA+"lib.rs", EA+"canonicalize.rs", EA+"encoding.rs"],
     [("let inlining, chaining and pairwise desugaring", EA+"lib.rs"), ("Tseitin encoding of connectives", EA+"encoding.rs")],
     "exhaustive bounded enumeration of formulas with reference-interpreter oracle",
     note="Every formula, its negation and its pinned variants are solved by the real code and judged by an independent interpreter. " + BOX + ".",
     observe=["verdict and model"])
prop("A09", "Unsupported or ill-formed input gives an error, never a wrong answer",
     "Input outside the supported fragment, ill-sorted terms and commands that would change the meaning of earlier assertions are answered with an error or with a verdict which is correct under SMT-LIB. They never cause a panic, a hang or a wrong verdict.",
     ["inputs", "programs"], "every unsupported construct in every syntactic context, and incremental commands at every position of short scripts",
     "No test feeds unsupported input; the combination of construct and context decides which code path meets it.",
     [EA+"lib.rs", EA+"canonicalize.rs", EA+"encoding.rs"],
     [("error variants for unsupported constructs", EA+"lib.rs"), ("command filtering", EA+"lib.rs")],
     "exhaustive enumeration of construct x context x script position",
     note="A verdict is accepted only when the reference interpreter confirms it.", observe=["result of solve()/encode()"])
prop("A10", "External SAT solver behaviour is never misread",
     "Whatever the external solver prints and however it ends, a sat answer is given only with a correct model and an unsat answer only when the solver reported unsatisfiable. Missing, truncated, malformed or contradictory output, failure exit, signals and missing executables are errors, never panics or hangs.",
     ["fault_sequences", "histories"], "every truncation point, omitted literal, reordering, split, comment position, status line, exit status and signal of the solver's output",
     "Tests run one well-behaved solver; the protocol has unboundedly many legal layouts and failure shapes.",
     [EA+"lib.rs", EA+"encoding.rs"],
     [("solver process and output parser", EA+"lib.rs, aws-smt-ir solver support"), ("decode of an assignment", EA+"lib.rs")],
     "exhaustive enumeration of solver output histories and faults through a scripted solver process", level="fault_enumeration",
     note="The scripted solver is the harness binary itself; each history is one real run of solve().", observe=["result of solve()"])
prop("A11", "The answer does not depend on hash or memory order",
     "Solving the same input again gives the same verdict and a correct model whatever order the hash tables and term interner happen to iterate in. Nothing in the answer's correctness relies on iteration order.",
     ["schedules", "inputs"], "every formula of the family under every one of the enumerated hash-key and address assignments",
     "A test run sees one random hash seed and one address layout.",
     [EA+"lib.rs", EA+"canonicalize.rs", EA+"encoding.rs", EA+"stats.rs"],
     [("hash maps keyed by interned terms", EA+"encoding.rs, stats.rs"), ("ordering of variables in sums", EA+"canonicalize.rs")],
     "stateless exploration of iteration orders by controlling hash keys and heap addresses",
     note="Hash keys (getrandom) and heap addresses are functions of an enumerated seed in each child process; 24 assignments, not all orders.", observe=["verdict and model"])
# ---------------------------------------------------------------- string function updater
prop("U01", "The updater preserves the meaning of scripts",
     "The converted script has the commands of the original in order, and under the modern string syntax each means what the original means under the old one: renamed operators, constants and loops are converted wherever they occur and nothing else changes.",
     ["inputs"], "every operator of the old and modern theories in every argument of every operator, three deep, in every kind of command",
     "Existing tests convert no script at all; whether a rewrite reaches a subterm depends on the enclosing operator, binder and command.",
     [UP+"transpiler.rs", UP+"transpiler_visitors.rs", UP+"main.rs"],
     [("visitors that rename functions and constants", UP+"transpiler_visitors.rs"), ("modernize_string_fcts", UP+"transpiler.rs")],
     "exhaustive bounded enumeration of terms and contexts with an independent conversion as oracle",
     note="Output is compared command by command, up to the notation of literals, with an independent converter working on s-expressions. Three defects of the parser dependency's printer are recorded as known findings.",
     observe=["modernize_string_fcts() commands as printed"])
prop("U02", "Escape sequences of literals keep their characters",
     "Every string literal of the converted script denotes the same characters as the original literal does under the old escape rules, for any arrangement of backslashes, escape letters, hexadecimal digits and quotes.",
     ["inputs"], "all literals of length up to 7 over the escape alphabet and up to 4 over a wider one",
     "Escape handling is stateful; sequences that overlap, nest or end early are exponentially many.",
     [UP+"transpiler_visitors.rs", UP+"transpiler.rs"],
     [("escape conversion", UP+"transpiler_visitors.rs")],
     "exhaustive enumeration of all literals up to a length with an independent scanner as oracle",
     note="About 5.3 million literals (thorough: 48 million), each converted by the real code.", observe=["string literals of the output"])
prop("U03", "Conversion is idempotent and its output parses",
     "The output of a conversion is again a valid script and converting it a second time changes nothing.",
     ["inputs", "histories"], "all scripts of the enumerated families, converted twice",
     "Repeated conversion is never tested; double escaping or repeated set-logic insertion only shows on the second pass.",
     [UP+"transpiler.rs", UP+"transpiler_visitors.rs"],
     [("modernize_string_fcts", UP+"transpiler.rs")],
     "exhaustive bounded enumeration of scripts and two-step histories", observe=["second output against first"],
     note="All scripts of U01, command sequences of length 3 and literals of length 5.")
prop("U04", "A missing logic is added once, in a legal place, and covers the script",
     "When a script sets no logic, exactly one set-logic is added, after leading options and before every other command, and the logic includes strings and the arithmetic that occurs. A script that sets a logic keeps it. All other commands keep their order.",
     ["inputs", "histories"], "all sequences of up to 4 of 14 kinds of commands, and every operator in every command context",
     "The place and the guess depend on the order of commands and on every operator anywhere in the script.",
     [UP+"transpiler.rs", UP+"transpiler_visitors.rs"],
     [("logic guess and insertion", UP+"transpiler.rs")],
     "exhaustive enumeration of command sequences with rule-based oracle", observe=["output commands"],
     note="38,000 sequences plus all operator/context pairs.")
prop("U05", "The updater tool converts whole files or reports failure",
     "The command line tool finds the input by the documented extensions, writes the whole converted script to the documented name and leaves every other file alone. Unreadable, truncated or malformed input is reported by the exit status and no output is produced.",
     ["inputs", "fault_sequences", "crash_points"], "every combination of present files, stale outputs, base names and scripts; every truncation; every read fault offset",
     "No test runs the tool; silent truncation only shows with faults at particular offsets.",
     [UP+"main.rs", UP+"transpiler.rs"],
     [("file selection and output", UP+"main.rs"), ("parse", UP+"transpiler.rs")],
     "enumeration of file-system states, truncations and read-fault offsets against the built binary", level="fault_enumeration",
     note="The binary is built from the current tree and run in a scratch directory.", observe=["exit status", "files"])
# ---------------------------------------------------------------- prediction
SC = PR + "scripts/"
prop("P01", "Offline features count every string operator of the assertions",
     "Each column of a benchmark's feature row is the number of occurrences of that operator in the benchmark's assertions, wherever they are nested, and the header names the columns of the chosen data set in order. Nothing outside assertions is counted.",
     ["inputs"], "every operator over every operator in every argument, in eight command contexts, for the four data sets",
     "There are no tests of the counter; whether an occurrence is reached depends on everything that encloses it.",
     [PR+"src/main.rs"], [("StringCounter visitor", PR+"src/main.rs"), ("CSV header and rows", PR+"src/main.rs")],
     "exhaustive bounded enumeration of terms and contexts, rows of the real tool against an independent count",
     note="15,000 benchmarks (thorough: three operators deep), all 35 columns compared.", observe=["off_features_<name>.csv"])
prop("P02", "One feature row per benchmark in list order, or a reported failure",
     "The offline feature tool writes exactly one row per listed benchmark, in the order of the list, whatever the list looks like. A benchmark that is missing, unreadable, truncated or malformed makes the tool fail and never yields a row.",
     ["inputs", "histories", "fault_sequences", "crash_points"], "all lists of up to three benchmarks of nine kinds with three line endings, and every truncation point",
     "Rows are matched with labels by position only, so one missing or extra row silently shifts all training data; no test runs the tool.",
     [PR+"src/main.rs"], [("main loop over the list", PR+"src/main.rs")],
     "exhaustive enumeration of benchmark lists and truncation points on the built tool", level="fault_enumeration",
     note="Each history is one run of the binary in a scratch directory.", observe=["exit status", "off_features_<name>.csv"])
prop("P03", "Online features count lines by words in the labelled buckets",
     "Every line of the solver output falls in exactly one bucket, the one its label describes by its number of words, for any bucket limits. The three scripts keep outputs, counts and feature rows of each benchmark together, in list order, whatever benchmark names and solver timeouts occur, and whatever files an earlier run has left. The scripts for the sets of the competition run the documented set with the documented option.",
     ["inputs", "histories", "fault_sequences"], "all bucket sets out of seven limits with all single and pairs of counts, all short texts, all lists of up to three benchmarks with tricky names and solver behaviours",
     "There are no tests of the scripts; boundaries and file naming matter only for particular combinations.",
     [SC+"get_word_count_features.py", SC+"get_word_counts.py", SC+"get_solver_output.py"],
     [("bucket labels and features", SC+"get_word_count_features.py"), ("word counts", SC+"get_word_counts.py"), ("solver output and timeouts", SC+"get_solver_output.py")],
     "exhaustive bounded enumeration of inputs and of solver histories under a scripted solver and virtual clock",
     note="Names whose '/' and '_' collide are excluded. CVC4 and Z3 are replaced by scripted programs.", observe=["labels", "features", "CSV files"])
prop("P04", "Encoding statistics become exactly the documented features",
     "For every problem the eager solver accepts, its printed statistics are read back as they are when there is one partition, and aggregated by sums and maxima with the bound of the combined parameters when there are several. Names of variables and magnitudes of numbers do not matter.",
     ["inputs"], "all single, pair and selected triple combinations of 29 independent problems with adversarial names, and printed statistics of up to 30 digits",
     "Parsing depends on the other program's output format, on names in it and on the number of partitions; no test covers it.",
     [SC+"generate_predictions.py", SC+"clean_eager_lazy_data.py", EA+"stats.rs"],
     [("parse_eager_encoding_output", SC+"generate_predictions.py"), ("get_naive_big_encoding, compute_bound", SC+"clean_eager_lazy_data.py"), ("printed statistics", EA+"stats.rs")],
     "exhaustive enumeration of problem combinations through both real programs with exact aggregation as oracle",
     note="The aggregated bound may differ by one, as the scripts document. Problems without integer constraints are excluded.", observe=["feature string"])
prop("P05", "Labels name the fastest solver and stay with their features",
     "The racing script labels each benchmark with a solver that is fastest within the time limit, or None if there is none, and writes its feature row even if the eager solver is cut off. The cleaning script does the same from tables of results, whatever the order of columns, benchmarks and parameter sets.",
     ["inputs", "schedules", "fault_sequences"], "all combinations of eight runtimes of three solvers under a virtual clock; all column and benchmark orders with one to three partitions and ties",
     "Timeouts depend on earlier runtimes; the cases where one solver overtakes another need precise times no test can arrange.",
     [SC+"run_eager_v_lazy.py", SC+"clean_eager_lazy_data.py"],
     [("race with shrinking timeouts", SC+"run_eager_v_lazy.py"), ("best solver and features", SC+"clean_eager_lazy_data.py")],
     "exhaustive enumeration of solver runtimes under a virtual clock", observe=["fastest_solver.csv", "features.csv", "best_solver_*.csv"],
     note="External solvers and the clock are scripted; ties accept any fastest solver.")
prop("P06", "Predictions are made from the documented features and reported faithfully",
     "The vector sent to the prediction service is the offline features followed by the online ones, normalised as configured, or the encoding statistics for arithmetic. The announced outcome is the most probable one. If anything is missing the script fails without announcing a prediction.",
     ["inputs", "fault_sequences"], "all combinations of problems, solver outputs, buckets, normalisation and options, all answers of the service, and every missing piece",
     "The whole path depends on five programs and a remote service; no test runs any of it.",
     [SC+"generate_predictions.py", SC+"get_solver_output.py", SC+"get_word_count_features.py", PR+"src/main.rs"],
     [("do_runtime_prediction", SC+"generate_predictions.py"), ("do_eager_lazy", SC+"generate_predictions.py"), ("do_solver_configuration", SC+"generate_predictions.py")],
     "exhaustive enumeration of configurations and service answers through the real script with scripted externals",
     note="The service is a stand-in recording the request; the feature extractors are the real binaries.", observe=["request to the service", "stdout"])
prop("P07", "Data sets contain exactly the qualifying benchmarks, modernised in place",
     "Selecting competition results keeps exactly the benchmarks of the documented families, solver, runtime ranges and exclusion lists, with the documented runtimes, and stops at a result whose status is unknown. The configuration experiment files each benchmark by which run was faster, and modernising a list converts every listed file to the listed name.",
     ["inputs", "histories"], "all paths, solvers, exclusion lists and runtimes around every limit; all pairs of runtimes; all lists of up to two benchmark names",
     "Limits and families interact; no test runs the scripts.",
     [SC+"clean_smt_comp_results.py", SC+"find_faster_fmf.py", SC+"modernize_benchmarks.py"],
     [("selection", SC+"clean_smt_comp_results.py"), ("fmf experiment", SC+"find_faster_fmf.py"), ("modernisation", SC+"modernize_benchmarks.py")],
     "exhaustive enumeration of result rows, runtimes and lists through the real scripts", observe=["CSV files", "converted files"],
     note="Scripts run in a scratch copy of the directory layout.")
prop("P08", "Results of experiments are read back as they were recorded",
     "For every query of an experiment the analysis script reports the first line of each solver output as its result (errors, empty outputs, cut runs and missing files by names of their own), the recorded user time of each command in seconds, the sizes of the files and the number of literals mapped character by character. What is missing or belongs to another command is left out. The table has exactly the listed (or found) queries, runs without a recorded time are cut ones, and the summary counts and averages just these rows. The script comparing transformed files counts for each the files equal to it.",
     ["inputs", "crash_points"], "every combination of contents of the three outputs, of recorded times, of file sizes and of mapping files; recorded times cut after every line; the whole table for all pairs of 18 kinds of runs; all directories of up to four (thorough: five) transformed files",
     "No test runs these scripts.",
     [ST.replace("src/","")+"data_processing.py", ST.replace("src/","")+"pairwise_diff_count.sh"],
     [("reading results, timings, sizes and mappings", ST.replace("src/","")+"data_processing.py get_SAT_results, get_timings, get_filesizes, get_map_info"), ("table and summary", ST.replace("src/","")+"data_processing.py get_summary_table"), ("counting equal files", ST.replace("src/","")+"pairwise_diff_count.sh")],
     "exhaustive enumeration of the recorded files through the real scripts", observe=["values of the functions that fill the table of an experiment", "output of the comparing script"],
     note="pandas and matplotlib are absent: harness/py/frame.py stands in for the parts of pandas that the script uses.")
# ---------------------------------------------------------------- string transformer
S_ATOMS = "all single atoms and pairs (thorough: many triples) of more than 200 atoms over one or two variables"
prop("S01", "The default transformation preserves satisfiability",
     "Transforming a script without reconstruction replaces its string literals so that exactly the same combinations of its constraints can be true together as before. This holds for every combination of literals and string functions, whether the literals contain, extend or overlap each other, are digits, or lie in character ranges.",
     ["inputs"], S_ATOMS + " built from literals that overlap, extend and contain each other, ranges, digits, positions and lengths",
     "Literals are remapped jointly: a wrong relation only shows for particular pairs of literals in particular functions. The tests contain no check of equisatisfiability.",
     [ST+"string_mappings.rs", ST+"string_fcts.rs", ST+"callgraph.rs", ST+"transpiler.rs"],
     [("mapping that keeps substrings, ranges, lengths", ST+"string_mappings.rs"), ("properties required by each function", ST+"string_fcts.rs get_required_props"), ("propagation of literals and functions", ST+"callgraph.rs"), ("transform_ast", ST+"transpiler.rs")],
     "exhaustive bounded enumeration of scripts; explicit product automata of all constraints decide every combination of truth values before and after",
     note="Each script is transformed by the real library in a deterministic child. Regular constraints are decided exactly by derivative automata, others over the words the automata distinguish.",
     observe=["transformed commands"])
prop("S02", "Character-to-character transformation preserves satisfiability",
     "Transforming a script character by character keeps exactly the combinations of its constraints that can be true together, for all supported functions. Characters in ranges stay in the mapped ranges and digits keep the meaning they have for the functions in use.",
     ["inputs"], S_ATOMS + " built from literals that overlap, extend and contain each other, ranges, digits, positions and lengths",
     "The mapping of a character depends on all ranges, digits and characters seen before it; no test checks equisatisfiability.",
     [ST+"string_mappings.rs", ST+"string_fcts.rs", ST+"transpiler.rs"],
     [("map_string_char_to_char", ST+"string_mappings.rs"), ("initialize_charmap: ranges and digits", ST+"transpiler.rs")],
     "exhaustive bounded enumeration of scripts; explicit product automata of all constraints decide every combination of truth values before and after",
     note="Same families and oracle as S01 with the character-to-character option.",
     observe=["transformed commands"])
prop("S03", "Models of a character-mapped script reconstruct to models of the original",
     "If the script transformed character by character has a model, mapping its strings back with the mapping file gives values under which every constraint of the original script has the same truth value. This holds for every model, whichever characters it uses.",
     ["inputs", "histories"], "every model over the words that the constraints distinguish, of every script of the S02 families, with the mapping read back from its file",
     "A solver returns one of very many models; characters outside the query, or in ranges but not in literals, only occur in some of them. No test reconstructs anything.",
     [ST+"reconstruct_tools.rs", ST+"mapping_tools.rs", ST+"transpiler.rs"],
     [("reverse character map", ST+"mapping_tools.rs get_re_map"), ("assertions of reconstructed values", ST+"reconstruct_tools.rs"), ("characters of ranges", ST+"transpiler.rs populate_ranges")],
     "explicit enumeration of all models of the transformed script over the words its product automaton distinguishes",
     note="1.4 million models of 15,000 scripts are reconstructed by the real code and evaluated. Words with characters that solvers print as escapes are left out.",
     observe=["build_string_var_assertions() output"])
prop("S07", "Transformations sharing a mapping file stay correct",
     "Scripts transformed one after another with the global mapping file each keep their own combinations of constraints that can be true together, whatever was transformed before. A mapping stored in the file that is still valid is used again.",
     ["histories", "inputs"], "all sequences of two scripts, and selected ones of three, of one or two out of 22 constraints, and of literals in 14 uses under six ranges, scripts that are given up on and scripts with two variables, with mixed mapping options",
     "Whether a stored mapping may be used again depends on all literals of both scripts; no test uses the file.",
     [ST+"string_mappings.rs", ST+"mapping_tools.rs", ST+"transpiler.rs"],
     [("reuse of persistent mappings", ST+"string_mappings.rs gen_string_keep_substrings"), ("mapping file", ST+"mapping_tools.rs"), ("pruning", ST+"transpiler.rs prune_persist_string_map")],
     "exhaustive enumeration of operation sequences on the real code, each step decided by product automata",
     note="91,000 sequences; each runs in a child process with a mapping file of its own.", observe=["transformed commands of every step", "global_mapping.json"])
prop("S08", "The transformation is correct under every hash and memory order",
     "Whatever order the hash tables and interned terms happen to iterate in, the transformed script admits exactly the combinations of constraints of the original one.",
     ["schedules", "inputs"], "eight assignments of hash keys and heap addresses for every script of a cross-section of the S01 families, in both mapping modes",
     "A test run sees one random order; literals are mapped in the order in which tables list them.",
     [ST+"transpiler.rs", ST+"callgraph.rs", ST+"string_mappings.rs"],
     [("hash maps of literals and properties", ST+"transpiler.rs CharMap"), ("partitions", ST+"callgraph.rs, forest.rs")],
     "stateless exploration of iteration orders by controlling hash keys and heap addresses",
     note="Hash keys and heap addresses are functions of an enumerated seed in each child process; not all orders are explored.", observe=["transformed commands"])
prop("S04", "Functions that mappings cannot preserve are reported, not transformed",
     "A script with lexicographic comparisons or ranges whose ends are not single-character literals is either answered with the bail-out message, naming variables that could not be mapped, or transformed correctly. It is never transformed to a script with other combinations of constraints. Scripts that relate strings by user-defined or uninterpreted functions, arrays or defined sorts of strings are answered with the bail-out message.",
     ["inputs"], "42 constraints with such functions, arrays and sorts alone, before, after and between all pairs of 12 supported constraints, in both mapping modes",
     "The requirement must reach every literal related to the function through any chain of variables; no test contains such a function.",
     [ST+"string_fcts.rs", ST+"callgraph.rs", ST+"transpiler.rs"],
     [("requirement to keep everything", ST+"string_fcts.rs get_required_props"), ("failed variables", ST+"transpiler.rs transform_ast"), ("bail-out message", ST+"main.rs convert")],
     "exhaustive bounded enumeration of scripts; explicit product automata decide those that are transformed",
     note="10,000 scripts; a bail-out is accepted only with its reason in the mapping, and S01 and S02 accept none.", observe=["transformed commands", "failed_transformed_constraint_vars"])
prop("S05", "Nothing but names, literals and the order of declarations changes",
     "The transformed script has the commands of the original in order, after its settings and declarations. Every declared, defined or bound name is replaced everywhere by a name of its own, every literal by the one the mapping file records, different literals of a variable stay different, and nothing else changes except that let binders are expanded.",
     ["inputs", "histories"], "all pairs (thorough: triples) of 76 assertions over variables of eight sorts, all pairs of 18 names, sequences of commands, redeclarations in scopes, definitions, functions and quantifiers, up to 200 literals",
     "What is renamed, moved, dropped or captured depends on the position of a declaration, a binder or a function among the other commands; no test looks at the shape of the output.",
     [ST+"transpiler.rs", ST+"transpiler_visitors.rs", ST+"subformula_parser.rs"],
     [("renaming and lifting of declarations", ST+"transpiler.rs transform_ast"), ("auxiliary variables for function applications", ST+"transpiler_visitors.rs"), ("restoring the shape of the query", ST+"subformula_parser.rs reconstruct_orig_query_shape")],
     "exhaustive bounded enumeration of command sequences; each output is matched term by term by an independent reader",
     note="50,000 scripts (thorough: 900,000) in both mapping modes. Equations of a term with itself may be left out. Recursive definitions and annotations are lost by the parser dependency and left out.",
     observe=["transformed commands", "alpha_renaming_map", "string_map"])
prop("S06", "Converting a file writes exactly its transformation and its mapping, or fails",
     "The convert command writes the transformed script beside the input and the mapping beside it or, for the global map, in the working directory, whatever these files held before, and touches nothing else. The mapping recorded is the one used. Missing, unreadable, truncated or malformed input is an error and leaves no output.",
     ["inputs", "fault_sequences"], "every combination of mapping option, global map, path, contents of the output paths and script; every truncation; malformed tokens in three places; every offset at which reading fails",
     "No test runs the command line tool; options, paths, stale files and faults multiply.",
     [ST+"main.rs", ST+"transpiler.rs", ST+"mapping_tools.rs"],
     [("convert", ST+"main.rs convert"), ("parse", ST+"transpiler.rs parse"), ("mapping file", ST+"mapping_tools.rs print_json_to_file, build_from_json_file")],
     "exhaustive enumeration of file system states and fault points around the real tool; outputs judged semantically", level="fault_enumeration",
     note="3,200 runs in a scratch directory. Outputs are read back and judged as in S05 and S01, since the tool's hash order is random. A mapping file that is no mapping is taken for an absent one.",
     observe=["files", "exit status"])
prop("S09", "Reconstruction reports the solver's answer and adds only right values",
     "The reconstruct command reports the status in the solver's output. For a model it writes the original commands with, before each check-sat, one assertion per string variable of the model giving a value under which the original constraints have the truth values that the model gives to the transformed ones. Partial, malformed or missing files never yield other values; without a model or on failure nothing is written.",
     ["inputs", "fault_sequences"], "55 queries under four choices of names, each with models of every truth vector in twelve layouts; every truncation of three layouts; 22 other outputs; 14 faults for six kinds of paths",
     "Solvers print models in many layouts, orders and with other entries; no test reconstructs anything.",
     [ST+"reconstruct_tools.rs", ST+"main.rs", ST+"mapping_tools.rs"],
     [("status and model of the solver", ST+"reconstruct_tools.rs reconstruct_and_add_assertions"), ("values of variables", ST+"reconstruct_tools.rs build_string_var_assertions"), ("insertion before check-sat", ST+"reconstruct_tools.rs add_asserts_to_original_problem")],
     "exhaustive enumeration of solver outputs, truncations and file faults through the real tool; reference interpreter as oracle", level="fault_enumeration",
     note="16,000 runs of the tool. What follows a malformed entry of a model may be left out.",
     observe=["stdout", "exit status", "_recon_check file"])
prop("S10", "The list of subformulas has every application with normalised variables",
     "The sub-formula command lists every application of a function or operator in the script exactly as often as it occurs, arguments before the application, and nothing else. In each, variables are renamed v0, v1 and so on in order of appearance, one to one, and nothing else changes, so that subformulas over different variables are equal exactly when they have the same shape.",
     ["inputs", "fault_sequences"], "all scripts of S05; nine terms with binders under all pairs of names like those given by the tool; paths, contents of the output path, truncations",
     "Traversal order, duplicates, capture and renaming depend on the nesting of terms; no test lists subformulas.",
     [ST+"subformula_parser.rs", ST+"main.rs"],
     [("collecting applications", ST+"subformula_parser.rs StringSubformulaCountBuilder"), ("normalising variables", ST+"subformula_parser.rs VariableNameNormalizer"), ("output", ST+"main.rs find_subformulae")],
     "exhaustive bounded enumeration of scripts with an independent traversal as oracle; faults of the real tool",
     note="17,000 scripts. Terms with binders are compared up to the choice of bound names.",
     observe=["find_string_subforumlas()", "_recon.json file"])
prop("S11", "Requirements on literals are merged and stored without loss",
     "Merging two sets of requirements on literals gives the weakest one that implies both: lengths, ranges, digits, substrings and prefixes required by either are required, and the stricter treatment of digits wins. A mapping written to a file and read back is the same mapping, for every combination of requirements and characters.",
     ["inputs"], "all pairs of 385 combinations of requirements; every combination and all pairs of twelve awkward strings through a mapping file",
     "Merging is pairwise over five components with an order on one of them; characters such as quotes, escapes and controls need escaping in the file. No test merges or stores.",
     [ST+"transpiler.rs", ST+"mapping_tools.rs"],
     [("update_with_truths, KeepInts::merge", ST+"transpiler.rs"), ("JSON form", ST+"mapping_tools.rs StringSetPropertiesJson, MappedStringMetaObjJson, Mapping")],
     "exhaustive enumeration of the lattice of requirements against its componentwise join",
     note="149,000 merges; the space of requirements over four ranges is covered completely.",
     observe=["update_with_truths(), KeepInts::merge()", "mapping file"])
