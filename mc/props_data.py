BOUND = ["bounded: at most 4 Boolean variables (3 in most families), at most 3 formulas per section, formulas from the listed pools (complete function spaces where the family says full)",
         "the drivers compile /repo's current sources at -O0/-O1 and give CUDD smaller tables than the default"]
CNT = {"a": "realizable", "b": "unrealizable"}
MT = "explicit-state model checking of the real program: exhaustive enumeration of bounded specifications against an explicit-state reference game"
MTS = "explicit-state model checking of every extracted strategy (product with the specification), exhaustive over bounded specifications"
NOTE = "Exhaustive within the stated bounds; trusts the reference game / automaton checker in /verif/mc (explicit-state, independent of BDDs) and the compiler."
TESTS = "The existing tests only look at the plain verdict of ten example files (and CUDD's own tests); "
P("R01", "Realizability verdict is exactly that of the GR(1) game",
  "For every well-formed specification, slugs reports 'realizable' exactly if a controller exists that, for every admissible initial input, chooses initial outputs and then plays so that, as long as the environment keeps to its safety assumptions, all safety guarantees hold and every liveness guarantee recurs forever whenever all liveness assumptions do. Otherwise it reports 'unrealizable'; exactly one verdict is given.",
  ["inputs"], "all GR(1) specifications (any initial, safety and liveness sections, including empty, contradictory and transition-based liveness)",
  TESTS + "a nested fixpoint is wrong only for particular combinations of assumptions, dead ends and goals, of which ten files reach almost none.",
  ["src/synthesisAlgorithm.cpp", "src/synthesisContextBasics.cpp", "src/gr1context.hpp", "src/variableManager.cpp"],
  [("nested fixpoint over transitions", "src/synthesisAlgorithm.cpp: computeWinningPositions"), ("initial condition check", "src/synthesisAlgorithm.cpp: checkRealizability")],
  observe=["RESULT line on stderr", "exit code"], technique=MT, note=NOTE, assumptions=BOUND, counters=CNT)
P("R02", "Robotics initial semantics: verdict quantifies over all initial states",
  "With the robotics initial-position option, slugs reports 'realizable' exactly if the controller can win from every initial input/output valuation that satisfies both initial conditions (the environment picks the outputs too).",
  ["inputs"], "all specifications, with the robotics option",
  TESTS + "none uses this option.", ["src/extensionRoboticsSemantics.hpp", "src/synthesisAlgorithm.cpp"],
  [("universally quantified initial check", "src/extensionRoboticsSemantics.hpp: checkRealizability")],
  observe=["RESULT line on stderr"], technique=MT, note=NOTE, assumptions=BOUND, counters=CNT)
P("S01", "Explicit strategies implement the specification",
  "Whenever a specification is realizable, the explicit-state strategy printed is a complete deterministic controller: it has a state for every required initial valuation, exactly one successor for every next input the safety assumptions allow and none for others, it respects the safety guarantees, and every infinite run that satisfies all liveness assumptions infinitely often satisfies each liveness guarantee infinitely often. Nothing is printed for unrealizable specifications.",
  ["inputs", "histories"], "all realizable specifications, and all infinite environment behaviours against the printed strategy",
  TESTS + "no test extracts a strategy; whether a strategy is winning is a statement about all infinite input sequences.",
  ["src/extensionExtractExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp", "src/tools.cpp"],
  [("preference-ordered strategy layers", "src/synthesisAlgorithm.cpp: strategyDumpingData"), ("goal counter with skipping", "src/extensionExtractExplicitStrategy.hpp: computeAndPrintExplicitStateStrategy")],
  observe=["strategy text on stdout"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("S02", "Recycling and bias-for-action keep strategies correct and biased",
  "The fixed-point-recycling and bias-for-action options never change the verdict and their strategies implement the specification. With bias-for-action the controller moreover reaches each goal, wherever it can be forced without relying on liveness assumptions, within finitely many steps on every environment behaviour.",
  ["inputs", "histories", "configurations"], "all realizable specifications x both options x both initial semantics, all environment behaviours",
  TESTS + "these options run in no test.", ["src/extensionFixedPointRecycling.hpp", "src/extensionBiasForAction.hpp"],
  [("inner fixpoint restart values", "src/extensionFixedPointRecycling.hpp"), ("goal attractor layers dumped first", "src/extensionBiasForAction.hpp")],
  observe=["RESULT line", "strategy text"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("S03", "Cooperative strategies keep the assumptions satisfiable",
  "With the cooperative option a strategy is only announced if the specification is realizable, it implements the specification, it never leads into a state in which the environment has no allowed next input, and from every state of it the environment still can satisfy all its liveness assumptions forever.",
  ["inputs", "histories"], "all specifications for which a cooperative strategy is announced; all reachable strategy states",
  TESTS + "the option runs in no test.", ["src/extensionCooperativeGR1Strategy.hpp"],
  [("dead-end avoidance and assumption sub-goals", "src/extensionCooperativeGR1Strategy.hpp: computeWinningPositions")],
  observe=["RESULT line", "strategy text"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("S04", "Recovery strategies also answer assumption-violating inputs",
  "With the simple-recovery option the strategy still implements the specification, and in each of its states it also has a successor for every next input that violates the safety assumptions whenever the controller can respond without violating its safety guarantees and end in a winning position.",
  ["inputs", "histories"], "all realizable specifications x {plain, recycling, bias} x both initial semantics",
  TESTS + "the option runs in no test.", ["src/extensionExtractExplicitStrategy.hpp"],
  [("transitions for inputs outside the safety assumptions", "src/extensionExtractExplicitStrategy.hpp: oneStepRecovery")],
  observe=["strategy text"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("S05", "JSON and text strategies describe the same controller",
  "For every specification and option combination the JSON form of the explicit strategy is well-formed JSON that lists every variable once and has exactly the states, valuations, goal ranks and transitions of the text form; the verdict is the same.",
  ["inputs", "configurations"], "all specifications x option combinations that permit both formats",
  TESTS + "no test produces either format.", ["src/extensionExtractExplicitStrategy.hpp"],
  [("two printers over one exploration", "src/extensionExtractExplicitStrategy.hpp: computeAndPrintExplicitStateStrategy")],
  observe=["stdout"], technique="exhaustive differential enumeration: both printers on every bounded specification, results parsed and compared state by state", note=NOTE, assumptions=BOUND, counters=CNT)
P("S06", "Symbolic strategies implement the specification",
  "The file written by the two symbolic strategy options lists every variable and the number of goals, and the relation it stores (state, goal counter, next state) permits, from every winning initial position, at least one response to every allowed input; every way of resolving the remaining choices respects the safety guarantees, advances the goal counter only when the current goal is met, and satisfies all liveness guarantees. A file is written only for realizable specifications.",
  ["inputs", "histories", "configurations"], "all realizable specifications x {plain, recycling, bias, cooperative} x both formats x both initial semantics",
  TESTS + "no test writes or reads a symbolic strategy.", ["src/extensionExtractSymbolicStrategy.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
  [("union of per-goal positional strategies with counter encoding", "src/extensionExtractSymbolicStrategy.hpp: computeAndPrintSymbolicStrategy"), ("dddmp export", "src/BFAbstractionLibrary/BFCuddManager.cpp: writeBDDToFile")],
  observe=["strategy file"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("S07", "Permissive strategies are winning, complete and contain the ordinary one",
  "The permissive strategy contains every winning position, offers at least one successor for every allowed input and none for excluded inputs, and every way of resolving its choices satisfies the specification. It contains all choices of the ordinary strategy, and for pure safety specifications it permits every transition that keeps the controller winning.",
  ["inputs", "histories"], "all realizable specifications, all resolutions of the offered choices",
  TESTS + "the option runs in no test.", ["src/extensionPermissiveExplicitStrategy.hpp"],
  [("transitions collected until a state is fixed", "src/extensionPermissiveExplicitStrategy.hpp")],
  observe=["strategy text"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("C01", "Counterstrategies defeat every controller behaviour",
  "The counterstrategy options report 'unrealizable' exactly when the plain program does, and then the explicit counterstrategy printed (on standard output, or to the output file if one is named) is a winning environment: its moves respect the environment assumptions, it has a successor for every system response that the safety guarantees allow, and every infinite play against it satisfies all liveness assumptions infinitely often while some liveness guarantee is satisfied only finitely often. Nothing is printed for realizable specifications.",
  ["inputs", "histories"], "all unrealizable specifications, and all infinite system behaviours against the printed counterstrategy",
  TESTS + "no test extracts a counterstrategy; that it wins is a statement about all infinite system behaviours.",
  ["src/extensionCounterstrategy.hpp", "src/extensionExtractExplicitCounterstrategy.hpp"],
  [("dual fixpoint with dumped transitions", "src/extensionCounterstrategy.hpp: computeWinningPositions"), ("positional strategies and choice of the prevented guarantee", "src/extensionExtractExplicitCounterstrategy.hpp: computeAndPrintExplicitStateStrategy")],
  observe=["RESULT line", "counterstrategy text on stdout or in the output file"], technique=MTS, note=NOTE, assumptions=BOUND, counters=CNT)
P("A01", "Safety/liveness interaction report is correct for every subset",
  "The interaction analysis prints one row per combination of kept/dropped safety and liveness assumptions and guarantees, with the true realizability of the reduced specification under classical and robotics initial semantics, and says whether weakening to a non-strict implication makes the specification realizable under either semantics. It also states truthfully whether, with only the safety parts, one player can force the other to violate its specification, and within how many steps.",
  ["inputs"], "all specifications, all 16 combinations of assumption/guarantee groups", TESTS + "the analysis runs in no test.",
  ["src/extensionAnalyzeSafetyLivenessInteraction.hpp"],
  [("16 re-solved games, non-strict variant, falsification distance", "src/extensionAnalyzeSafetyLivenessInteraction.hpp: execute")],
  observe=["report on stdout"], technique=MT, note=NOTE, assumptions=BOUND, counters={"a": "non_strict_part", "b": "non_strict_realizable"})
P("A02", "Each assumption is classified by what removing it really does",
  "For a realizable specification the assumption analysis reports every safety and liveness assumption exactly once, by its name or number, as crucially needed exactly if the specification is unrealizable without it, otherwise as enlarging the winning positions exactly if it does (and then whether this can help initially), otherwise as redundant, as speeding up exactly those goals whose reactive distances shrink or change, or as superfluous. Unrealizable specifications get no classification.",
  ["inputs"], "all specifications, each of their assumptions", TESTS + "the analysis runs in no test.",
  ["src/extensionAnalyzeAssumptions.hpp"], [("one re-solved game per assumption, distance layers compared", "src/extensionAnalyzeAssumptions.hpp: execute")],
  observe=["report on stdout"], technique=MT, note=NOTE, assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable", "c": "speed_ups"})
P("A03", "Interleaving analysis lists a maximal set of early outputs",
  "For realizable specifications the interleaving analysis lists a set of output signals that the controller can set, in every step, before it reads the next input without losing realizability; adding any further signal to the list would lose it. If no signal can be set early it says so, and for unrealizable specifications nothing is listed.",
  ["inputs", "schedules"], "all specifications, all sets of output signals committed before the inputs", TESTS + "the analysis runs in no test.",
  ["src/extensionInterleave.hpp"], [("game with outputs split into before/after input, greedy extension", "src/extensionInterleave.hpp")],
  observe=["report on stdout"], technique=MT, note=NOTE, assumptions=BOUND, counters=CNT)
P("A04", "Initial position analysis counts and lists the right positions",
  "The initial-position analysis reports the exact numbers of winning and losing initial inputs and positions (optionally only reachable ones), and every cube it lists contains positions of the set it is listed for and no others, integer variables being shown by value; a cube is listed whenever the set is not empty, and limits on variables only restrict the positions looked at.",
  ["inputs", "configurations"], "all specifications x the analysis' modes", TESTS + "the analysis runs in no test.",
  ["src/extensionAnalyzeInitialPositions.hpp"], [("cube enumeration of winning and losing sets", "src/extensionAnalyzeInitialPositions.hpp")],
  observe=["report on stdout"], technique=MT, note=NOTE, assumptions=BOUND)
P("A05", "Weakened safety assumptions are implied, sufficient and minimal",
  "The weakened-safety-assumption list consists of clauses over input, output and next-input literals that are all implied by the original safety assumptions; if the specification is realizable it stays realizable with the listed clauses as its only safety assumptions, and leaving out any one of the clauses makes it unrealizable.",
  ["inputs"], "all specifications", TESTS + "the option runs in no test.",
  ["src/extensionWeakenSafetyAssumptions.hpp"], [("clause-wise greedy weakening with re-solved games", "src/extensionWeakenSafetyAssumptions.hpp: execute")],
  observe=["clause list on stdout"], technique=MT, note=NOTE, assumptions=BOUND, counters=CNT)
P("A06", "The CNF export is equivalent to the specification",
  "The CNF form lists every variable once with distinct numbers for its current and next value; its initial, safety-assumption and safety-guarantee clauses are conjunctions equivalent to the specification's, and its liveness lines list, one per liveness formula, disjunctive forms that are satisfied infinitely often along exactly the same infinite traces.",
  ["inputs", "histories"], "all specifications, all infinite traces", TESTS + "the option runs in no test.",
  ["src/extensionComputeCNFFormOfTheSpecification.hpp"], [("recursive clause/cube extraction", "src/extensionComputeCNFFormOfTheSpecification.hpp")],
  observe=["CNF text on stdout"], technique="exhaustive enumeration of bounded specifications; exported clauses compared by truth table and by cycle search in the complete transition graph", note=NOTE, assumptions=BOUND)
P("T01", "Abstract winning traces describe how a player forces a safety violation",
  "Looking at the safety parts and initial conditions only, an abstract (counter)trace is printed for a player exactly if that player can force the other one to violate its safety constraints within finitely many steps, with the least number of rounds. Its first column is a concrete initial position; from every position described by a column the player can win at once or force a position described by the next column; no entry left open could be fixed to a value; and the environment's final input falsifies the guarantees in every remaining position.",
  ["inputs"], "all specifications", TESTS + "the option runs in no test.", ["src/extensionAbstractWinningTraceGenerator.hpp"],
  [("backward rounds, then restriction of the columns", "src/extensionAbstractWinningTraceGenerator.hpp: computeAbstractStrategyTrace")],
  observe=["table on stdout"], technique=MT, note=NOTE, assumptions=BOUND, counters={"a": "final_inputs", "b": "no_trace"})
P("T02", "Interesting runs are real, correctly annotated plays",
  "The run printed starts in an initial position that is winning, every row follows from the previous one by a transition that both players' safety constraints allow, all rows are winning positions, and a goal is marked as reached exactly if that transition satisfies it, the goal numbers advancing cyclically. For every outcome of the random choices the run only ends before 100 steps if the environment has no allowed input, and all assumptions and guarantees are reached again and again if the environment can force its assumptions.",
  ["inputs", "schedules"], "all specifications with a winning initial position, all outcomes of the random choices", TESTS + "the option runs in no test and its output is random.",
  ["src/extensionComputeInterestingRunOfTheSystem.hpp", "src/tools.cpp"],
  [("product of system strategy and environment strategy, randomized determinization", "src/extensionComputeInterestingRunOfTheSystem.hpp: computeRun")],
  observe=["table on stdout"], technique="stateless exploration of the real program: every outcome of the first rand() choices, rest all-0 and all-1, each run replayed on the reference game", note=NOTE,
  assumptions=BOUND + ["rand() outcomes beyond the first 3 (quick) or 6 (thorough) are all 0 or all 1"], counters={"a": "assumptions_forceable", "b": "different_runs"})
P("I01", "Simulator protocol: XGETINIT/XMAKETRANS play a winning strategy",
  "After XGETINIT announces a winning initial position (or ERROR if there is none), every sequence of XMAKETRANS or XMAKETRANSRANDOM commands is answered by a play of a correct controller: an input is refused with ERROR exactly if the safety assumptions forbid it, refused inputs change nothing, every answer satisfies the safety guarantees, and any infinite session that satisfies all assumptions again and again also satisfies all guarantees again and again, whatever the random choices. XGETINIT restarts the play, the announced goal number only advances past goals that were satisfied, and the variable lists and goal counts are exact.",
  ["inputs", "histories", "schedules"], "all specifications, all command sequences (closed under the reachable position/goal pairs), all random outcomes",
  TESTS + "no test uses the interactive mode, on which the simulators rest.", ["src/extensionInteractiveStrategy.hpp", "src/tools.cpp"],
  [("simplified functions to be called from other tools", "src/extensionInteractiveStrategy.hpp: execute (XGETINIT, XMAKETRANS, XMAKETRANSRANDOM)")],
  observe=["answers on stdout"], technique="stateless exploration of the real shell: breadth-first closure of all position/goal pairs reachable by command sequences, every random outcome by prefix replay; the transition relation obtained is model-checked by cycle search", note=NOTE,
  assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable", "c": "checked_from_all_positions"})
P("I02", "Interactive shell: positions, moves and transition facts are right",
  "For every pair of positions CHECKTRANS states truthfully whether the first is winning (for the player who wins the specification), which safety constraints the transition satisfies and for which goals it is a goal transition; the transitions it attributes to strategies form a winning strategy from every winning position, for the system if the specification is realizable and otherwise for the environment. STARTPOS, SETPOS and MOVE put the session into exactly the position that was chosen or announced, for any numbers or words entered, and MOVE follows that strategy and says correctly when a move or an input is not allowed.",
  ["inputs", "histories"], "all specifications, all pairs of positions, all command sequences up to depth 2, malformed values included",
  TESTS + "no test uses the interactive mode.", ["src/extensionInteractiveStrategy.hpp"],
  [("condensed positional strategies and environment fixpoint", "src/extensionInteractiveStrategy.hpp: execute (before the command loop)"), ("STARTPOS, CHECKTRANS, SETPOS, MOVE", "src/extensionInteractiveStrategy.hpp: execute")],
  observe=["answers on stdout"], technique="exhaustive query of the real shell for all transitions; the revealed strategies of both players model-checked against all behaviours of the opponent; all move sequences up to depth 2 replayed", note=NOTE,
  assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable", "c": "moves"})
P("I03", "Completion queries say which values are forced, and by what",
  "XCOMPLETEINIT and XSTRATEGYTRANSITION complete every partial assignment to one that satisfies the assumptions, the guarantees and the winning strategy whenever such a completion exists, and otherwise name the first of these that is in the way. The letter printed for each variable tells truthfully whether the assumptions, the guarantees or the strategy leave only that value; completions avoid dead ends if possible and advance exactly the goal counters that the completed transition satisfies.",
  ["inputs", "configurations"], "all specifications, positions, partial assignments and goal numbers", TESTS + "no test uses the interactive mode; the curses and water tank simulators rest on these queries.",
  ["src/extensionInteractiveStrategy.hpp"], [("three nested candidate sets and the letters printed for them", "src/extensionInteractiveStrategy.hpp: execute (XCOMPLETEINIT, XSTRATEGYTRANSITION)")],
  observe=["answers on stdout"], technique="exhaustive query of the real shell (every position x every partial assignment x every goal pair), answers compared with explicitly enumerated candidate sets", note=NOTE,
  assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable", "c": "refused", "d": "completed"})
P("R03", "Extraction and analysis options never change the verdict",
  "Every permitted combination of the options that only choose what is extracted, printed or analysed, or how fixpoints are iterated, gives the verdict of the plain program on the same specification (that of the robotics semantics if this option is among them); strategy and counterstrategy options always give a verdict.",
  ["inputs", "configurations"], "all specifications x all permitted option sets up to size 5 without cooperative, cost, motion, estimator and fast/slow options",
  TESTS + "the option combinations are built from nested templates of which the tests run one.", ["src/main.cpp", "src/synthesisAlgorithm.cpp", "src/extensionRoboticsSemantics.hpp"],
  [("table of option combinations and plugin stacks", "src/main.cpp: optionCombinations")],
  observe=["RESULT line on stderr", "exit code"], technique="exhaustive enumeration of all permitted option sets on bounded specifications, verdicts compared with the explicit-state reference game", note=NOTE, assumptions=BOUND, counters=CNT)
P("R04", "Results do not depend on when the BDD library reorders or collects",
  "Whenever dynamic variable reordering and garbage collection strike, verdicts, explicit, symbolic and permissive strategies, counterstrategies, analyses, traces and interactive answers stay correct, and the program neither crashes nor hangs.",
  ["inputs", "schedules"], "all specifications x all reordering schedules",
  TESTS + "reordering starts at 4004 nodes, so which operation it interrupts is different for every large specification and unobservable on small ones.", ["src/BFAbstractionLibrary/BFCudd.h", "src/BFAbstractionLibrary/BFCuddManager.cpp", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp", "src/BFAbstractionLibrary/bddDump.cpp", "src/tools.cpp", "src/variableManager.cpp"],
  [("reference counting and index/level handling of BFs, cubes and vectors", "src/BFAbstractionLibrary/BFCudd.h, BFCuddVarCube.h, BFCuddVarVector.h")],
  observe=["all output of the options"], technique="exhaustive enumeration of reordering schedules (first trigger x distance) on a fixed sublattice of every other property's specification family, every result model-checked as without reordering",
  note=NOTE + " Reordering is triggered through CUDD's own node-count threshold (Cudd_SetNextReordering), set far below its default.", assumptions=BOUND + ["4 (quick) or 34 (thorough) schedules; every k-th specification of each family"], counters=dict(CNT))
P("P01", "slugsin formulas and sections mean what is documented",
  "Every well-formed prefix formula, memory buffers with arbitrary nesting and recalls included, denotes the Boolean function given by the documented grammar, in every section and for every admissible variable name. The order and splitting of sections, comments, blank lines, white space and line ends never matter.",
  ["inputs"], "all well-formed formulas, all layouts of a specification",
  TESTS + "ten files use a handful of formula shapes and one layout each.", ["src/synthesisContextBasics.cpp", "doc/input_formats.md"],
  [("recursive prefix parser with buffers", "src/synthesisContextBasics.cpp: parseBooleanFormulaRecurse"), ("section reader", "src/synthesisContextBasics.cpp: init")],
  observe=["CHECKTRANS answers", "RESULT line", "strategy text"], technique="exhaustive enumeration of all formulas up to a length; each truth table is read from the real program assignment by assignment and compared with a reference evaluator; layouts by model checking the strategy extracted",
  note=NOTE, assumptions=["formulas up to 5 tokens over all leaves, 7 over two leaves, 10 for buffers over one leaf (quick); 6/9/12 (thorough)", "one input and one output for most families"], counters=CNT)
P("P02", "Malformed specifications and calls are refused with an error",
  "A line that is not a formula of the grammar over the variables its section allows, an unknown section, a line outside any section, a repeated variable name, an unknown parameter, an option combination that is not offered, missing, unreadable or superfluous files: each is refused with an error message (naming the line where one is to blame), exit code 1, no verdict, no output and no crash, whatever options are given. Every well-formed input and every documented strategy option combination is accepted.",
  ["inputs", "configurations"], "all short token sequences in all sections, all single-edit corruptions of a file, all option sets",
  TESTS + "no test gives the program anything malformed.", ["src/synthesisContextBasics.cpp", "src/main.cpp", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
  [("parser errors", "src/synthesisContextBasics.cpp"), ("error handling and option table", "src/main.cpp: main")],
  observe=["stderr", "exit code", "stdout"], technique="exhaustive enumeration of token sequences, file corruptions and option sets against a reference recogniser of the documented grammar",
  note="Exhaustive within the stated bounds; trusts the reference recogniser and the compiler.", assumptions=["token sequences up to length 3 over 18 tokens in every section, 4 over 11, 5 over 7 (quick); 4/5/7 (thorough)", "option sets up to size 4 (quick) or 5 (thorough)", "the fast/slow, estimator and motion readers: every literal in seven formula shapes in every section, every single-edit corruption of one file each; malformed integer groups must end in an error, possibly after results have been printed"], counters={"a": "accepted", "b": "refused"})
P("O01", "Results go, completely or with an error, to the named place only",
  "No option writes, creates or removes any file except the output file named on the command line (and the documented dump of conflicting costs); specification files are never changed. The output file is written exactly if there is something to extract, equals what would be printed on standard output, and if it or standard output cannot be written completely, an error is reported and the exit code is 1.",
  ["inputs", "configurations", "faults"], "all option sets, all specifications, a write failure at every byte of the output",
  TESTS + "no test writes a file or lets a write fail.", ["src/extensionExtractExplicitStrategy.hpp", "src/extensionExtractExplicitCounterstrategy.hpp", "src/extensionPermissiveExplicitStrategy.hpp", "src/extensionExtractSymbolicStrategy.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp", "src/main.cpp"],
  [("output streams", "src/extensionExtract*Strategy.hpp: execute"), ("dddmp export", "src/BFAbstractionLibrary/BFCuddManager.cpp: writeBDDToFile")],
  observe=["files opened for writing", "output file", "exit code"], technique="exhaustive fault injection: the write limit is set to every byte position of the output, all permitted option sets; file-changing library calls are recorded by interposition",
  note="Exhaustive within the stated bounds; faults are file size limits (EFBIG) and a failing stream buffer.", assumptions=BOUND, counters={"a": "complete", "b": "incomplete_or_nothing_to_write"})

MTB = "explicit-state model checking of operation sequences: every bounded sequence / operand pair is executed on the real BDD layer and compared with truth tables"
P("B01", "BDD layer operations compute the exact Boolean functions",
  "Every operation of the BDD abstraction layer (Boolean connectives, quantification, variable renaming, restriction, comparison, evaluation, support, minterm enumeration, cubes and variable vectors) returns exactly the function defined by Boolean logic, whatever the variable order, and equal functions compare equal. Copies, moves, assignments, garbage collection and variable reordering never change the value of a live function, and once all objects are gone no node reference is left.",
  ["inputs", "histories"], "all functions, operand pairs, variable orders and operation sequences over the layer",
  "CUDD's own tests do not touch the C++ layer, and the ten examples use few operations in one order; a lost or surplus reference or a wrong result for particular operands shows only for particular sequences.",
  ["src/BFAbstractionLibrary/BFCudd.cpp", "src/BFAbstractionLibrary/BFCudd.h", "src/BFAbstractionLibrary/BFCuddManager.cpp", "src/BFAbstractionLibrary/BFCuddVarCube.cpp", "src/BFAbstractionLibrary/BFCuddVarVector.cpp", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"],
  [("reference-counted wrapper objects", "src/BFAbstractionLibrary/BFCudd.h"), ("minterm enumeration", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp")],
  engines=("mcbf",), observe=["C++ interface of the layer"], technique=MTB, note="Exhaustive within the stated bounds; trusts the truth-table oracle in /verif/mc/b_bdd.cpp and CUDD's own consistency checks.",
  assumptions=["bounded: complete function spaces over 2-3 variables (4 for single operands), sequences of 3 operations (thorough 4) over 3 functions, 2 cubes, 2 vectors"], counters={})
P("B02", "BDD files read back as the function that was written",
  "A BDD written to a file is read back as the same function over the given variables, in the same or another manager, under any variable order of either, with and without a text prefix. A path that holds no BDD, or one that depends on more variables than supplied, is reported as an error and leaves the manager usable.",
  ["inputs", "configurations"], "all functions, variable orders and variable lists; all paths without a BDD",
  "No test writes or reads a BDD file.",
  ["src/BFAbstractionLibrary/BFCuddManager.cpp", "lib/cudd-3.0.0/dddmp/dddmpLoad.c", "lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c"],
  [("variables matched by position", "src/BFAbstractionLibrary/BFCuddManager.cpp: readBDDFromFile"), ("dddmp export", "src/BFAbstractionLibrary/BFCuddManager.cpp: writeBDDToFile")],
  engines=("mcbf",), observe=["written files", "C++ interface of the layer"], technique="exhaustive enumeration of functions, orders and file contents through the real writer and reader, against truth tables", note="Exhaustive within the stated bounds; trusts the truth-table oracle. Damaged dddmp bodies (not claimed) are outside the property, see DESIGN.md.",
  assumptions=["bounded: complete function spaces over 2-4 variables, all variable orders for 2 variables, the first 60-120 (thorough) for 3 and 4"], counters={})
P("D01", "Cost-optimal strategies win and are cheap",
  "With --twoDimensionalCost the verdict is the one for the specification without costs, and every behaviour of the extracted strategy (explicit, symbolic, permissive or interactive, also under robotics semantics and with --simpleRecovery, where excluded inputs are answered as for strategies without costs) satisfies the specification, whatever the costs and weights. If the specification has no liveness assumption, then from every state of the strategy, including the initial ones, the worst-case sum of the action costs until the current goal is reached is the least that any strategy can ensure.",
  ["inputs"], "all specifications and cost files",
  "No test computes a strategy with costs; the construction works in layers over cost tuples and added memory bits, so a wrong layer shows only for games in which waiting and acting interact.",
  ["src/extensionTwoDimensionalCost.hpp", "src/extensionExtractExplicitStrategy.hpp", "src/extensionExtractSymbolicStrategy.hpp", "src/extensionPermissiveExplicitStrategy.hpp", "src/extensionInteractiveStrategy.hpp", "src/main.cpp"],
  [("strategy computation over cost tuples", "src/extensionTwoDimensionalCost.hpp: computeCostOptimalStrategy"), ("cost file", "src/extensionTwoDimensionalCost.hpp: init")],
  observe=["strategy on stdout", "verdict on stderr"], technique=MTS, note="Exhaustive within the stated bounds; the waiting cost of strategies that rely on liveness assumptions is not judged.",
  assumptions=["bounded: specifications of up to 3 variables, 6 cost files"], counters={})
P("F01", "Fast and slow actions: intermediate positions are safe",
  "With --IROSfastslow, in which the actions of [OUTPUT_F] complete immediately and those of [OUTPUT_S] later, 'realizable' is reported exactly if the system wins the game in which a step is only permitted if also the position between both (next inputs, next fast outputs, previous slow outputs) occurs in steps permitted by the safety guarantees, both as source and as target. Every explicit, permissive and symbolic strategy (also with --simpleRecovery and under robotics semantics) and the controller of the interactive shell win that game.",
  ["inputs", "histories"], "all specifications with fast and slow outputs, all infinite environment behaviours",
  TESTS + "no test uses fast and slow outputs; a wrong intermediate position shows only if it is exactly the unsafe one.",
  ["src/extensionIROSfastslow.hpp", "src/extensionExtractExplicitStrategy.hpp", "src/extensionPermissiveExplicitStrategy.hpp", "src/extensionExtractSymbolicStrategy.hpp", "src/extensionInteractiveStrategy.hpp", "src/main.cpp"],
  [("realizability with intermediate positions", "src/extensionIROSfastslow.hpp: checkRealizability")],
  observe=["RESULT line", "strategy on stdout"], technique=MTS, note=NOTE, assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable", "nontriv": "intermediate_positions_matter"})
P("N01", "Robot abstractions: verdict of the game with nondeterministic motion",
  "With --nonDeterministicMotion, 'realizable' is reported exactly if the system wins the game in which, per step, the environment picks inputs, the controller then picks an action that is available in the current motion state and the other outputs, and the robot finally moves to any motion state that its abstraction BDD allows for that action, where additionally the robot is assumed to move again and again whenever its action can change its motion state. Named abstraction regions denote exactly the motion states of their BDDs, current and (primed) next.",
  ["inputs"], "all specifications, robot abstractions and region BDDs",
  TESTS + "no test reads a robot abstraction; a wrong quantifier order shows only for robots whose motion is ambiguous in the states that matter.",
  ["src/extensionNondeterministicMotion.hpp", "src/main.cpp"],
  [("enforceable predecessor over robot motion", "src/extensionNondeterministicMotion.hpp: checkRealizability"), ("motion assumption", "src/extensionNondeterministicMotion.hpp: addAutomaticallyGeneratedLivenessAssumption"), ("bit order of robot and region BDDs", "src/extensionNondeterministicMotion.hpp: init")],
  observe=["RESULT line"], technique=MT + " with three-stage moves; all robot relations over one state and one action bit, rings of four cells", note=NOTE,
  assumptions=BOUND + ["not claimed: ENV_TRANS over next motion states or next outputs, ENV_INIT over motion states or outputs"], counters={"a": "realizable", "b": "unrealizable"})
P("N02", "Robot abstractions: the interactive controller is safe for every motion",
  "In the interactive shell for a robot abstraction, XGETINIT announces a winning initial position exactly if there is one, and XMAKETRANS refuses exactly the inputs that the safety assumptions forbid; otherwise it answers with an available action such that every motion the robot can make satisfies the safety guarantees and leads to a winning position, also after SETPOS has entered the position that the robot really reached. Plays of the answers that satisfy all assumptions, including the motion assumption, satisfy all guarantees again and again.",
  ["inputs", "histories"], "all specifications and robot abstractions, all input sequences, all winning positions",
  TESTS + "no test uses the shell with a robot abstraction.",
  ["src/extensionInteractiveStrategy.hpp", "src/extensionNondeterministicMotion.hpp", "src/main.cpp"],
  [("strategy transitions over robot motion", "src/extensionNondeterministicMotion.hpp: checkRealizability (strategyDumpingData)"), ("XGETINIT, XMAKETRANS, SETPOS", "src/extensionInteractiveStrategy.hpp: execute")],
  observe=["answers on stdout"], technique="stateless exploration of the real shell (closure of all positions and goals reachable by input sequences, plus SETPOS to every winning position); the resulting transition graph is model-checked against every robot motion", note=NOTE,
  assumptions=BOUND, counters={"a": "realizable", "b": "unrealizable"})
P("E01", "Incomplete information: estimators are sound, exact and tightest",
  "--computeIncompleteInformationEstimator prints a [SYS_TRANS] formula that admits an update of the estimates exactly if it satisfies the requirements for every value of the unobservable inputs compatible with a reachable state and the assumptions, with min_ estimates as large and max_ estimates as small as possible (the estimate declared last decided first), and an [ENV_TRANS] formula that is exactly the observable consequence of the assumptions in the states reachable under these updates. The printed ranges of differences between integer estimates and other integers are the exact extremes over all reachable steps.",
  ["inputs", "histories"], "all estimation problems, all observation histories; any time at which BDD variables are reordered",
  TESTS + "no test computes an estimator; a wrong quantification shows only if several hidden states are compatible with the same observations.",
  ["src/extensionIncompleteInformationEstimatorSynthesis.hpp", "src/main.cpp"],
  [("reachability and estimator relation", "src/extensionIncompleteInformationEstimatorSynthesis.hpp: execute"), ("formula printer", "src/extensionIncompleteInformationEstimatorSynthesis.hpp: recursePrintBFAsSlugsExpression")],
  observe=["formulas on stdout", "min/max analysis on stderr"], technique="explicit-state model checking: every bounded estimation problem is run through the real program; its formulas are evaluated at every valuation and compared with explicit reachability over all hidden states", note=NOTE,
  assumptions=["bounded: at most 5 Boolean variables (6 in the reordering family), formulas from the listed pools (complete function spaces where the family says all)", "the warnings about dead ends are not judged"], counters={"a": "nontrivial_estimators", "b": "trivial_estimators", "nontriv": "with_integer_ranges"})
P("L01", "Structured formulas are compiled to formulas with the same meaning",
  "The structured-slugs compiler translates every formula (Boolean operators in all documented spellings, precedences and bracketings, next, integer comparisons and sums) into a slugs formula that is true at exactly the same valuations, encodes each integer range so that exactly its values are admitted initially and after every step, and copies prefix-notation lines and comments unchanged. A line it cannot translate is rejected with a message and never dropped.",
  ["inputs"], "all structured formulas, ranges and malformed lines",
  "No test runs the compiler; a wrong carry, precedence or range limit shows only for particular operand widths, offsets and values.",
  ["tools/StructuredSlugsParser/compiler.py", "tools/StructuredSlugsParser/Parser.py", "doc/input_formats.md"],
  [("adders and comparators over memory cells", "tools/StructuredSlugsParser/compiler.py: computeCalculationSubformula"), ("range limits", "tools/StructuredSlugsParser/compiler.py: performConversion")],
  engines=("sslugs.py",), observe=["compiled specification on stdout", "exit code"], technique="exhaustive enumeration of bounded formulas; each compiled formula is evaluated at every valuation of its variables (all states before and after) and compared with the integer meaning", note="Exhaustive within the stated bounds; trusts the evaluator in /verif/mc/py/sslugs.py.",
  assumptions=["bounded: at most 4 atoms per formula, at most 3 summands, ranges within -9..18 (thorough wider) and some of up to 301 values"], counters={})
P("L02", "Structured specifications: verdict and strategy of the integer game",
  "For every structured specification, compiling it and running slugs reports 'realizable' exactly if the game over the integer valuations is won by the system. The explicit strategy, after decoding the integers, is a complete deterministic controller over values within the declared ranges that implements the integer specification.",
  ["inputs", "histories"], "all structured specifications with integer and Boolean variables; all infinite environment behaviours",
  "No test compiles a structured specification or decodes a strategy.",
  ["tools/StructuredSlugsParser/compiler.py", "tools/explicitImplementationIntegerDecoder.py", "src/extensionExtractExplicitStrategy.hpp", "src/synthesisContextBasics.cpp"],
  [("range limits as safety and initial conditions", "tools/StructuredSlugsParser/compiler.py: performConversion"), ("binary decoding with offset", "tools/explicitImplementationIntegerDecoder.py")],
  engines=("structured.py",), observe=["RESULT line", "decoded strategy text"], technique="explicit-state model checking end to end: every bounded structured specification is compiled, synthesised and decoded by the real programs and compared with an explicit game over the integers", note="Exhaustive within the stated bounds; trusts the game solver in /verif/mc/py/intgame.py.",
  assumptions=["bounded: two to four variables with at most 5 values each, formulas from the listed pools"], counters=CNT)
P("L03", "Strategy converters preserve the strategy",
  "The integer decoder changes nothing in an explicit strategy but the encoded integers, which it replaces by their values, for every range, bit order and neighbouring variable name. The Graphviz converter yields a well-formed graph with exactly the strategy's states, values, ranks and transitions, also for states without successors.",
  ["inputs"], "all explicit strategies over Boolean and integer variables",
  "No test runs the converters.",
  ["tools/explicitImplementationIntegerDecoder.py", "tools/explicitStrategyToGraphviz.py"],
  [("binary decoding with offset", "tools/explicitImplementationIntegerDecoder.py"), ("node and edge output", "tools/explicitStrategyToGraphviz.py")],
  engines=("structured.py",), observe=["stdout of the converters"], technique="exhaustive enumeration of strategies (all valuations of bounded variable declarations, all strategies of a bounded specification family); the converted text is compared state by state", note="Exhaustive within the stated bounds.",
  assumptions=["bounded: at most 3 variables, ranges within -20..140"], counters={})
