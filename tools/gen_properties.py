import json
P=[]
def p(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0]) for m in mech.replace(', ','; ').split(';')])))
SOLV=["src/solver/parallel.rs","src/solver/barrier.rs"]
DD=["src/mdd/with_all.rs","src/mdd/with_barrier.rs"]
T="No existing test compiles a diagram or runs a solver: the suite only covers the node flag byte and two doc examples."
p("P01","The classic solver returns the true optimum",
 "For every problem whose relaxation and bound honour their documented contract, a run of the classic branch-and-bound solver that is not interrupted returns the value of a best feasible assignment and proves it (both bounds equal that value), or returns nothing exactly when no feasible assignment exists. This holds with either frontier, either cutset strategy, any maximum width of at least one and any number of threads of at least one.",
 ["inputs","configurations","schedules"],"every contract-abiding problem, frontier, cutset strategy, width, thread count and thread schedule",
 T+" Optimality depends on the joint behaviour of restriction, relaxation, cutsets, bounds and the work queue over all problems.",
 ["src/solver/parallel.rs","src/mdd/with_all.rs","src/frontier/no_dup.rs","src/frontier/simple.rs"],
 "branch and bound loop over restricted and relaxed diagrams; cutset enumeration; pruning against the incumbent; best-first frontier")
p("P02","The barrier solver returns the true optimum",
 "For every problem whose relaxation and bound honour their documented contract, a run of the barrier solver that is not interrupted returns the value of a best feasible assignment and proves it (both bounds equal that value), or returns nothing exactly when no feasible assignment exists. The expansion thresholds shared between its diagrams and threads never cost it the optimum, with either cutset strategy, any width of at least one and any number of threads.",
 ["inputs","configurations","schedules"],"every contract-abiding problem, cutset strategy, width, thread count and thread schedule",
 T+" A threshold that is too high only matters on problems where one state is reached by several paths in a particular order.",
 ["src/solver/barrier.rs","src/mdd/with_barrier.rs","src/frontier/no_dup.rs"],
 "barrier table of thresholds, threshold propagation through the relaxed diagram, barrier pruning in diagrams and in the work queue")
p("P03","A reported solution is genuine and worth the reported value",
 "Whenever a solver reports a best value it also reports a solution that assigns every variable exactly once, is feasible, and is worth exactly that value; when it reports no value it reports no solution. This also holds for runs interrupted at any moment.",
 ["inputs","configurations","schedules","crash_points"],"every problem, configuration, interruption point and schedule",
 T+" Solutions are rebuilt from back pointers across several diagrams and subproblems, so a wrong splice needs a specific history.",
 SOLV+DD,"best path reconstruction, prefix of the residual subproblem, update of the shared incumbent")
p("P04","The answer does not depend on threads, schedule or configuration",
 "For a given problem all runs that are not interrupted report the same best value, whichever of the solvers, cutset strategy, frontier, width and thread count is used and however the threads are scheduled.",
 ["schedules","configurations","inputs"],"every interleaving of every number of workers, on every problem and configuration",
 T+" No test starts a second worker thread.",
 SOLV+["src/mdd/with_barrier.rs"],"shared critical section (incumbent, frontier, counters), concurrent barrier table")
p("P05","Every resolution terminates",
 "Every resolution ends: no thread schedule, thread count, problem or interruption moment leaves worker threads waiting forever, cycling without progress, or stopping the resolution by a panic. This includes thread counts set after the solver was built.",
 ["schedules","inputs","configurations","crash_points"],"every schedule and wake-up order, thread count, problem and stop moment",
 T+" Lost wake-ups and livelocks need particular interleavings of workers that starve, finish and stop.",
 SOLV,"condition variable monitor, count of ongoing work, completion test, strict progress of cutsets")
p("P06","An interrupted run still reports valid bounds",
 "When a run is interrupted, at whatever moment and with whatever number of threads, the lower bound it reports is the value of its best solution, the upper bound it reports is never below the true optimum of the problem, and the lower bound never exceeds the upper bound. The same holds of a solver that has not been run yet, which has no solution.",
 ["crash_points","schedules","inputs","configurations"],"every poll of the stop condition, every set of subproblems in flight at that moment, every schedule",
 T+" The bound depends on which subproblems are open or in flight when the stop is requested.",
 SOLV,"per-thread upper bounds, best open node, bound recorded at interruption")
p("P07","A stop request is honoured and truthfully reported",
 "Once the stop condition holds, no worker begins another subproblem after the one it is processing, and the run reports that it was interrupted; a run whose stop condition never held reports a proof. The stop condition is consulted before each new subproblem.",
 ["crash_points","schedules","inputs"],"every moment at which the stop condition may become true, every thread count and schedule",
 T,
 SOLV,"cutoff polling while fetching work, interrupted flag, resolution status")
p("P08","Restricted and exact diagrams only contain genuine solutions",
 "Compiling a restricted or exact diagram from any subproblem yields a best value only together with a genuine completion of that subproblem worth that value, so never more than the true optimum. When the diagram says it is exact, its best value is the true best completion, up to completions that do not improve on the given incumbent; an exact-mode compilation is always exact.",
 ["inputs","configurations","histories"],"every problem, reachable subproblem, width, incumbent and earlier use of the same diagram object",
 T,DD,"layer by layer expansion, node merging by equal state, width restriction, pruning by bound, reset between compilations")
p("P09","Relaxed diagrams bound the subproblem from above",
 "Compiling a relaxed diagram from any subproblem yields a best value at least that of every completion of the subproblem that improves on the given incumbent. When the diagram says it is exact, its best value is attained by the genuine solution it returns.",
 ["inputs","configurations","histories"],"every problem, reachable subproblem, width, incumbent and earlier use of the same diagram object",
 T,DD,"merging of the worst nodes, redirection of their edges through the relaxation, exact-best-path test")
p("P10","Cutsets cover every improving solution and make progress",
 "The subproblems handed out by an inexact relaxed diagram are genuine partial assignments with their true state and value, strictly deeper than the subproblem they come from. Every completion that improves on the incumbent passes through one of them that can still reach it, and the upper bound attached to each never excludes an improving completion reachable through it.",
 ["inputs","configurations"],"every problem, reachable subproblem, width, incumbent and cutset strategy",
 T+" A lost or under-estimated subproblem only shows on problems where it holds the unique optimum.",
 DD,"last exact layer and frontier cutsets, local bounds propagated bottom up, marking of nodes that reach a terminal")
p("P11","User callbacks are only called within their contract",
 "The library asks the user's model only for what its contract allows: decisions are applied only if the domain of that state offered them, domains are asked for the variable selected for the layer of that state, merges receive at least one state, all from one layer, and a relaxed transition is one that really existed between its source and its destination with its real cost.",
 ["inputs","configurations"],"every problem, width and configuration",
 T,DD,"expansion loop, edge redirection during relaxation")
p("P12","Diagram width never exceeds the configured maximum",
 "In a restricted diagram no layer has more nodes expanded than the maximum width given by the width heuristic, and in a relaxed diagram no layer below the first two has; exact diagrams are not narrowed. The solvers use the width heuristic of the subproblem at hand.",
 ["inputs","configurations"],"every problem, subproblem and width of at least one",
 T,DD+["src/heuristics/mod.rs"],"restrict and relax truncation, reuse of an identical merged node")
p("P13","Barrier thresholds never prune an improving path",
 "After any compilation sequence that shares one threshold table, a path reaching a recorded state with a value not above the recorded threshold can be discarded without losing any improving solution: every completion of it that beats the incumbent is still reachable from a handed-out subproblem or was already found.",
 ["inputs","histories","configurations"],"every problem, subproblem, incumbent, cutset strategy and prior table content",
 T+" Thresholds are only wrong on particular combinations of incumbent, pruning and merge shape.",
 ["src/mdd/with_barrier.rs","src/solver/barrier.rs"],"threshold initialisation at pruned and cutset nodes, min-propagation along edges, explored flag")
p("P14","The barrier solver never re-explores a state without improvement",
 "With one thread, the barrier solver begins a subproblem on a given state again only if it has been reached by a partial assignment of strictly greater value than any with which it was begun before.",
 ["inputs","configurations","histories"],"every problem, cutset strategy and width",
 T,["src/solver/barrier.rs","src/mdd/with_barrier.rs","src/frontier/no_dup.rs"],"barrier check when a subproblem is taken from the queue; explored flag; cleaning of inactive layers")
p("P15","Frontiers are best-first priority queues that lose nothing",
 "Both frontiers always hand out a subproblem of greatest upper bound among those they hold, ties broken by the state ranking, return every pushed subproblem, and report their true length and emptiness, also after being cleared. The duplicate-free frontier holds at most one subproblem per state, the one with the longest path value, under the largest upper bound it was pushed with.",
 ["histories","inputs"],"every sequence of pushes, pops and clears",
 "The suite has no test of the frontiers; heap-position bookkeeping errors only show after particular sequences.",
 ["src/frontier/simple.rs","src/frontier/no_dup.rs","src/frontier/mod.rs"],"binary heap ordered by upper bound; indexed heap with position table and recycling")
p("P16","The TSPTW program finds the true shortest feasible tour",
 "For every well-formed instance of the travelling salesman problem with time windows, the command line program reports as its best value minus the earliest time at which a tour visiting every city within its window can be back at the depot, and reports that none was found exactly when no such tour exists, for every solver, cutset, width and thread count.",
 ["inputs","configurations"],"every well-formed instance and command line configuration",
 "The shipped examples have no tests at all; no run is compared with an independently computed optimum.",
 ["examples/tsptw/model.rs","examples/tsptw/relax.rs","examples/tsptw/state.rs","examples/tsptw/instance.rs","examples/tsptw/main.rs","examples/tsptw/heuristics.rs"],
 "dynamic programming model, merge of states, bound, time window propagation")
p("P17","The PSP program finds the true cheapest production plan",
 "For every well-formed instance of the pigment sequencing problem (unit demands, changeover costs respecting the triangle inequality), the command line program reports as its best value minus the cost of a cheapest plan that delivers every order on time, counting stocking and changeover costs, and reports that none was found exactly when no plan exists, for every solver, cutset, width and thread count.",
 ["inputs","configurations"],"every well-formed instance and command line configuration",
 "The shipped examples have no tests at all; no run is compared with an independently computed optimum.",
 ["examples/psp/psp.rs","examples/psp/utils.rs","examples/psp/main.rs"],"backward dynamic programming model, merge of states, stocking bound, changeover bound")
p("P18","The SRFLP program finds the true cheapest arrangement",
 "For every well-formed instance of the single row facility layout problem, the command line program reports as its best value minus the least weighted sum, over pairs of departments, of flow times the total length of the departments strictly between them, for every solver, cutset, width and thread count.",
 ["inputs","configurations"],"every well-formed instance and command line configuration",
 "The shipped examples have no tests at all; no run is compared with an independently computed optimum.",
 ["examples/srflp/model.rs","examples/srflp/relax.rs","examples/srflp/state.rs","examples/srflp/instance.rs","examples/srflp/main.rs"],"dynamic programming model over sets, merge of states, edge and cut bounds")
p("P19","The shipped models' bounds and merges are admissible",
 "In each of the three shipped models, the bound of a state is never below the value of its best completion, and merging any states of one layer loses none of them: entering the merged state through the relaxed transition and completing it is worth at least as much as the best completion of each merged state. This holds for states that are themselves results of merges.",
 ["inputs","histories"],"every instance, every layer, every set of states reachable by transitions and merges",
 "The shipped models have no tests; an inadmissible bound only costs the optimum on particular instances and widths.",
 ["examples/tsptw/model.rs","examples/tsptw/relax.rs","examples/psp/psp.rs","examples/srflp/model.rs","examples/srflp/relax.rs"],"problem bounds, relaxation merge and relaxed edge cost")
p("P20","Instance files are read faithfully",
 "Reading an instance file in the documented layout of each of the three problems yields exactly the data written in it, whatever the spacing, comments, blank lines or separators that layout allows, up to the fixed precision with which fractional times are held; asymmetrical flows between two departments are added together.",
 ["inputs"],"every well-formed file, over sizes, separators, spacing and fractional values",
 "No test reads an instance file.",
 ["examples/tsptw/instance.rs","examples/psp/psp.rs","examples/srflp/instance.rs"],"text parsers and derived demand tables")
p("P21","The command line report is truthful and well formed",
 "The solve command prints exactly one row, whose columns are those of the printed header: instance name, requested solver, a status that says proved or timed out as it happened, a best value, bounds and gap consistent with one another and with the optimum, and the number of subproblems and diagram nodes processed. It does so without crashing for every outcome, including infeasible instances, optimum zero and runs stopped at once.",
 ["inputs","configurations","crash_points"],"every instance outcome, solver, option and time limit",
 "No test runs the command line or the report.",
 ["src/xputils.rs","examples/tsptw/main.rs","examples/psp/main.rs","examples/srflp/main.rs"],"solve_timeout, gap computation, header")
p("P22","Work counters are exact",
 "After a run, with any number of threads and interrupted or not, the reported number of diagram nodes equals the number of nodes whose domain was enumerated during the run, and the reported number of subproblems equals the number taken from the queue for processing; processing of none is counted twice or missed.",
 ["schedules","inputs","crash_points"],"every schedule, problem, configuration and stop moment",
 T,SOLV+DD,"explored counters in diagrams and in the critical section")
p("P23","Bit sets, lexicographic comparison and matrices behave as documented",
 "Iterating a bit set yields exactly its members in increasing order, bit set comparison is the documented lexicographic total order (a bit beyond the capacity of a set counts as absent), and a matrix of n rows and m columns returns for each cell what was last written to that cell and nothing else.",
 ["inputs","histories"],"every set, capacity, pair of sets and write sequence",
 "Two doc examples sample two small sets; word boundaries, empty and full sets are not covered.",
 ["src/utils.rs"],"BitSetIter, LexBitSet, Matrix")
p("P24","No memory error, data race, arithmetic overflow, panic or leak in the library",
 "No use of the library (solvers with any number of threads and stop moments, diagrams reused, cloned or sharing one table of thresholds across threads, frontiers, sets and matrices) performs an invalid or uninitialised memory access, races on shared data, overflows an integer or panics on a problem whose values are in range, bounds at the ends of the type included. What a resolution, a diagram or a frontier allocates is given back once it is dropped, and a diagram or a frontier used over and over for the same work does not hold ever more memory.",
 ["schedules","inputs"],"every schedule, problem whose values are in range, and configuration",
 "The suite runs without sanitizers, single threaded, and never reaches the solvers.",
 SOLV+DD+["src/frontier/no_dup.rs","src/frontier/simple.rs","src/utils.rs"],"shared state behind locks, borrowed model references across scoped threads, index-based arenas, saturating arithmetic on values and bounds")
p("P25","Stopping later never gives looser bounds",
 "On one thread, of two runs of the same solver on the same problem, the one interrupted later never reports a smaller lower bound nor a larger upper bound than the one interrupted earlier; a run that is not interrupted reports the tightest. With any number of threads, once the processing of the whole problem is over the upper bound is no greater than what its relaxation told, or the lower bound if that is more. The best value found thus never decreases and the upper bound never increases as a resolution proceeds.",
 ["crash_points","schedules","inputs","configurations"],"every pair of interruption moments of a run, every schedule, problem, solver, frontier, cutset strategy and width",
 T+" It takes pairs of runs stopped at different moments to see a bound move the wrong way.",
 SOLV,"bound of a handed-out subproblem capped by that of its parent, best-first queue, incumbent only ever replaced by a better one")
p("P26","The time limit helper ends the process exactly one way",
 "The helper that runs an action under a time limit runs it once and ends the process: with success when the action completed first, and with failure, once the exit action has been run to its end, when the limit was reached first. The limit never strikes early, never fails to strike, and success and failure never both happen, however close together the end of the action and the limit are.",
 ["schedules","inputs"],"every duration of the action, of the limit and of the exit action, and every schedule of the two threads",
 "No test runs it: it ends the process it is called from.",
 ["src/xputils.rs"],"timer thread and main thread race for one lock that is never released by the winner")
p("P27","A resolution queues genuine subproblems and throws none away that could help",
 "Throughout a run of the classic solver on a queue supplied by the user, which may hand out any subproblem of greatest bound, each subproblem put in the queue is a genuine partial assignment with its true state and value. With any number of threads, a run that is not interrupted throws away unprocessed only subproblems whose bound does not exceed the final best value, still returns the optimum, and leaves the queue empty.",
 ["inputs","schedules","configurations"],"every problem, queue that honours its contract, configuration and schedule",
 T+" Only the shipped queues exist in the repository, and what they hold during a resolution is not observed.",
 ["src/solver/parallel.rs","src/mdd/with_all.rs","src/prelude.rs"],"cutset enumeration into the frontier, clearing of the frontier when its best bound is not above the incumbent, completion test")
p("P28","A solver and its queue can be used again",
 "Running the same solver object again, whether its previous runs ended in a proof or were interrupted, never loses what was found: the best value never decreases, the solution stays genuine, the bounds stay valid and nothing is reported as proved that is not the optimum. Runs none of which was interrupted all prove the same optimum, and so does another solver given the queue left by a complete run.",
 ["histories","inputs","schedules"],"every sequence of complete and interrupted runs of one solver, every problem, configuration and schedule",
 T+" Nothing runs a solver twice.",
 SOLV+["src/frontier/no_dup.rs"],"state kept in the critical section between runs, thresholds kept between runs, queue emptied by completion")
p("P29","The search is best first and never expands what cannot improve",
 "On one thread the classic solver takes subproblems from its queue in an order of non-increasing upper bound, from the first to the last, and queues none with a bound above that of the one it comes from or above its own value plus the model's estimate. It expands no subproblem whose upper bound does not exceed the best value it knows when it takes it.",
 ["inputs","configurations","histories"],"every problem, queue that honours its contract, cutset strategy and width",
 T+" Wasted expansions do not change the answer, so no comparison of results can notice them.",
 ["src/solver/parallel.rs","src/mdd/with_all.rs"],"bound of a handed-out subproblem capped by that of its parent, pruning against the incumbent before a subproblem is processed")
p("P30","A full layer keeps its most promising nodes and drops no more than it must",
 "When a layer of a diagram holds more nodes than the maximum width, the nodes a restricted diagram drops, or a relaxed diagram merges into one (from the second layer below its root on), are the least promising ones: those of least value and, among equal values, least in the user's ranking. No more of them are given up than the width demands, and a node that could still improve on the incumbent is left out of a diagram for no other reason than width.",
 ["inputs","configurations"],"every problem, ranking, reachable subproblem, width, incumbent and diagram type",
 T+" Keeping worse nodes only makes diagrams weaker, which changes no answer.",
 DD,"sort of the layer by value then ranking, restriction and relaxation of the layer, width test")
p("P31","Diagram bounds are those of its longest paths",
 "The best value of a diagram is that of its longest path. The bound attached to a subproblem handed out by a relaxed diagram exceeds neither the best value of that diagram, nor the value of the subproblem plus its estimate, nor the longest path of the diagram through its node. The subproblems of a last exact layer cutset lie in the layer just above the first merge and those of a frontier cutset no higher, and no state is handed out twice.",
 ["inputs","configurations"],"every problem, reachable subproblem, width, incumbent, cutset strategy and diagram type",
 T+" A looser bound is still valid, so comparing answers cannot notice it.",
 DD,"value of terminal nodes, local bounds computed bottom up, choice of the last exact layer and of the frontier")
p("P32","No diagram expands a node that cannot improve",
 "In every diagram no node is expanded twice, and none is expanded whose value plus estimate does not exceed the incumbent the diagram was compiled with. In diagrams that share expansion thresholds, no node strictly between the root and the first merge is expanded whose value does not exceed the threshold that was recorded for its state and depth before the compilation began.",
 ["inputs","configurations","histories"],"every problem, reachable subproblem, width, incumbent and sequence of compilations sharing one table",
 T+" Wasted expansions do not change the answer.",
 DD,"pruning by rough upper bound while expanding a layer, pruning by threshold before a layer is expanded, identification of equal states")
p("P33","A resolution on one thread repeats exactly",
 "Two resolutions of the same problem by the same solver, configured alike, on one thread and in one process, do the same work in the same order: the same subproblems with the same bounds, the same calls to the model, the same answer, bounds and counters. One that is stopped does exactly what the complete one does up to the point where it is stopped.",
 ["inputs","configurations","histories"],"every problem, solver, frontier, cutset strategy, width and stop moment",
 T+" It takes a comparison of whole histories to see that two runs differ.",
 SOLV+DD,"iteration orders of the hash tables of a layer, order of ties in the frontier, state left by earlier resolutions")
p("P34","The configured number of threads is used, no more and no less",
 "A parallel solver processes subproblems with at most the number of threads it is configured with (at construction, later, or by default as many as the machine has processors). Whenever at least that many subproblems are open it processes that many at once, and it calls no user code once the resolution has returned. A solver configured with zero threads works with one.",
 ["schedules","inputs","configurations"],"every thread count, way to set it, problem with enough open subproblems and schedule",
 T+" No test starts a second worker thread; a solver that uses one thread too few gives the same answers.",
 SOLV,"worker threads spawned by maximize, wake-up of waiting workers when subproblems are put in the queue, thread scope")
p("P35","Command line options do what they say",
 "The names of solvers and cutset strategies read back as they print, and an unknown name, a number that is none or a file that does not exist is refused with a failure and no row. For every combination of solver, cutset strategy, width, thread count and time limit the solve command does exactly the work that the library does when configured so: on one thread the same number of subproblems and nodes, the same status and bounds; with several, as many threads; stopped within the time limit asked for.",
 ["inputs","configurations"],"every instance, option value and combination of options",
 "No test runs the command line.",
 ["src/xputils.rs","src/mdd/with_all.rs","examples/tsptw/main.rs","examples/psp/main.rs","examples/srflp/main.rs"],"names of SolverType and CutsetType, dispatch of the solve command, time limit")
p("P36","Runs on the shipped benchmark instances never contradict one another",
 "Whatever configuration solves a shipped TSPTW, PSP or SRFLP instance and whenever it is stopped, it holds a genuine solution of the model worth exactly the value it reports, or none. The bounds of all runs on one instance agree: no run's solution is better than the bound another proves, none proves infeasible what another solves, and all of them enclose the optimum where it is known.",
 ["inputs","configurations","schedules"],"every shipped instance within reach, configuration, thread count and stop moment",
 "No test runs a shipped instance; benchmarks have too many decisions to be solved exhaustively, yet two runs can refute each other.",
 SOLV+DD+["examples/psp/psp.rs","examples/srflp/model.rs","examples/tsptw/model.rs"],"the three models solved by both solvers, bounds and best solution when stopped")
p("P37","What a diagram answers depends only on what it is compiled for",
 "A diagram object that has been compiled before, drained or not, answers like a new one compiled for the same problem, subproblem, width, incumbent and thresholds: the same best value and solution, as many expanded nodes, the same cutset with the same bounds, the same thresholds recorded; asking it again or draining its cutset changes none of its answers. While no threshold is recorded, both kinds of diagrams find the same best value and expand as many nodes.",
 ["inputs","configurations","histories"],"every problem, sequence of compilations by one object, subproblem, width, incumbent, mode and cutset strategy",
 "Each solver thread reuses one diagram for thousands of compilations; tests compile once. What is left over of an earlier compilation may only show in bounds or thresholds.",
 DD,"clear at the start of a compilation, fields set while compiling and while bounds are computed")
p("P38","Recorded thresholds only rise, and cover what was expanded",
 "In a table of thresholds shared by diagrams that are compiled one after the other, no threshold is ever lowered or lost. A relaxed diagram leaves, for every node it expanded in a layer above its first merge, a threshold no lower than the value of that node, so that no diagram expands it again in vain.",
 ["inputs","configurations","histories"],"every problem, sequence of compilations sharing one table, width, incumbent and cutset strategy",
 T+" Thresholds that are too low only cost time.",
 ["src/mdd/with_barrier.rs"],"update of the shared table while a layer is expanded and when thresholds are propagated upwards")
p("P39","The shipped models are what the library requires of a model",
 "In each of the three shipped models the same question always gets the same answer: one variable for all states of a layer, another in each layer and as many as announced, and for a state one domain without repetitions, one successor and cost per decision, one bound, a width of at least one. Equal states have equal hashes, the ranking is an order, and merging does not depend on the order of the merged states.",
 ["inputs"],"every instance, random or shipped, and every genuine or merged state",
 "Diagrams are built on hash tables, sorting and heaps, which go wrong silently when a model breaks these rules; no test calls the models.",
 ["examples/tsptw/model.rs","examples/tsptw/relax.rs","examples/tsptw/state.rs","examples/psp/psp.rs","examples/srflp/model.rs","examples/srflp/relax.rs","examples/srflp/state.rs"],"Problem, Relaxation, StateRanking and WidthHeuristic of the three models")
p("P40","A panic in a callback reaches whoever asked for the resolution",
 "When the user's code (model, relaxation, ranking, width heuristic, stop condition or the state's hash) panics at any moment of a resolution, on any of its worker threads, the panic reaches the caller of maximize: the resolution never returns as if it had succeeded, and no worker is left waiting for the one that died.",
 ["schedules","fault_sequences","inputs"],"every callback, moment at which it panics, number of threads and schedule",
 T+" No test has a callback that fails.",
 SOLV,"worker loops, count of ongoing work, condition variable monitor, thread scope")
p("P41","Threads without work wait for it, they do not spin",
 "A worker thread that finds no subproblem to process, because the others hold all there are, sleeps until something changes: while those others are busy it uses no processor time to speak of and does not consult the stop condition over and over. This holds from the first subproblem of a resolution to the last, for both solvers and any number of threads.",
 ["schedules","configurations"],"every moment at which fewer subproblems are open than there are threads, every number of threads and solver",
 T+" A thread that spins changes no answer.",
 SOLV,"starving workers wait on a condition variable that is notified when a subproblem is finished")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
[jsonschema.validate(x,sch) for x in P]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import collections
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],'sentences',n)
print(len(P))
