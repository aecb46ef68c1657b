"""Which monitored programs decide which property, with what budget, and what their evidence means."""

GEN = ("seeded cases: layered-graph and knapsack problems with admissible, sometimes loose bounds and correct merges (negative and mixed-sign costs, "
       "negative initial values, dead ends, infeasible ones, potentials that make many paths tie, irregular variable orders), random width, cutset, frontier and thread count; ")
SRULE = ("on eight workers, some of which schedule the threads of the resolution themselves (random, prioritised, starving and round-robin policies over every lock, wait, "
         "notification and callback), each distinct interleaving that really switched counting as one; ")
SCHED = "runtime monitoring: oracle over monitored executions of randomised stress workloads, on native threads with injected delays and under a seeded cooperative scheduler of the solver's locks"
TRUST = ["the harness's own dynamic-programming oracle, callbacks and generators are correct",
         "what was not executed was not judged: the verdict covers the observed executions only"]
CLI = ["the harness's exhaustive reference solver of the shipped problem is correct",
       "the example programs are built with optimisation and, but for a probe of the debug build, without overflow checks, as release builds are",
       "instances are small enough for the reference solver (up to about ten decisions)"]


def T(bin, check, weight=1, **kw):
    return dict(bin=bin, check=check, weight=weight, **kw)


# bare: only what a sanitizer reports counts, the answers are judged by other checks; tier: runs in that tier only
def cli(check, extra=()):
    return [T(b, check, needs=["examples"]) for b in ("tsptw", "psp", "srflp")] + list(extra)


PLAN = {
    "P01": dict(tasks=[T("core", "classic", 5), T("sched", "classic", 3)], technique=SCHED, rule=GEN + SRULE + "non-trivial when the run processed more than one subproblem and merged nodes", assumptions=TRUST),
    "P02": dict(tasks=[T("core", "barrier", 5), T("sched", "barrier", 3)], technique=SCHED, rule=GEN + SRULE + "non-trivial when the run processed more than one subproblem and merged nodes", assumptions=TRUST),
    "P03": dict(tasks=[T("core", "genuine", 4), T("sched", "genuine", 4)], technique=SCHED, rule=GEN + SRULE + "each problem is run to the end and stopped at random polls; non-trivial as for P01", assumptions=TRUST),
    "P04": dict(tasks=[T("core", "agree", 4), T("sched", "agree", 4)], technique=SCHED, rule=GEN + SRULE + "each problem is solved by several configurations and with several threads; non-trivial as for P01", assumptions=TRUST),
    "P05": dict(tasks=[T("core", "terminate", 3), T("sched", "terminate", 5)], technique=SCHED, rule=GEN + SRULE + "tiny problems with a budget of callbacks derived from the number of partial assignments, then with many threads; non-trivial as for P01", assumptions=TRUST + ["a resolution is blocked for good when none of its threads uses CPU or is switched in for 6 s"]),
    "P06": dict(tasks=[T("core", "interrupt", 5), T("sched", "interrupt", 3)], technique=SCHED, rule=GEN + SRULE + "the run is stopped at every early poll and random later ones; non-trivial as for P01", assumptions=TRUST),
    "P07": dict(tasks=[T("core", "stop", 4), T("sched", "stop", 4)], technique=SCHED, rule=GEN + SRULE + "the stop flag is raised while the k-th subproblem is processed; non-trivial as for P01", assumptions=TRUST),
    "P08": dict(tasks=[T("core", "restricted")], rule=GEN + "one diagram compiled from a random reachable subproblem; non-trivial when nodes were dropped or the diagram had several layers", assumptions=TRUST),
    "P09": dict(tasks=[T("core", "relaxed")], rule=GEN + "one relaxed diagram from a random reachable subproblem; non-trivial when it merged", assumptions=TRUST),
    "P10": dict(tasks=[T("core", "cutset")], rule=GEN + "one inexact relaxed diagram and its cutset; non-trivial when the cutset was judged against a better completion", assumptions=TRUST),
    "P11": dict(tasks=[T("core", "contract")], rule=GEN + "every callback of a whole resolution is judged; non-trivial as for P01", assumptions=TRUST),
    "P12": dict(tasks=[T("core", "width")], rule=GEN + "nodes whose domain is enumerated are counted per layer; non-trivial when the maximum width was binding", assumptions=TRUST),
    "P13": dict(tasks=[T("core", "thresholds")], rule=GEN + "sequences of compilations sharing one table, judged by the dynamic program; non-trivial when thresholds were recorded", assumptions=TRUST),
    "P14": dict(tasks=[T("core", "noreexp")], rule=GEN + "non-trivial as for P01", assumptions=TRUST),
    "P15": dict(tasks=[T("core", "frontier")], rule="random operation sequences on both frontiers against a sequential model; non-trivial when subproblems were popped", assumptions=TRUST),
    "P16": dict(tasks=[T("tsptw", "e2e", needs=["examples"])], rule="random instance files solved by the built program under random options and compared to an exhaustive search; non-trivial when the search space has several feasible tours", assumptions=CLI),
    "P17": dict(tasks=[T("psp", "e2e", needs=["examples", "checked"])], rule="random instance files solved by the built program under random options and compared to an exhaustive search; non-trivial when several plans exist", assumptions=CLI),
    "P18": dict(tasks=[T("srflp", "e2e", needs=["examples", "checked"])], rule="random instance files solved by the built program under random options and compared to an exhaustive search; non-trivial when arrangements differ in cost", assumptions=CLI),
    "P19": dict(tasks=[T("tsptw", "admissible", 3), T("psp", "admissible", 3), T("srflp", "admissible", 2)], rule="walks down the layers of a random instance merging random groups (also of merged states); non-trivial when something was merged and a feasible state was bounded", assumptions=CLI),
    "P20": dict(tasks=[T("tsptw", "parse", 3), T("psp", "parse", 3), T("srflp", "parse", 2)], rule="random data written in random legal layouts, read by the real reader and compared through the model's behaviour; non-trivial when data were compared", assumptions=CLI),
    "P21": dict(tasks=cli("report", [T("srflp", "midrun", needs=["examples"])]), rule="random instances (infeasible, optimum zero, stopped at once, stopped midway included) and options; non-trivial when the row was judged against the optimum", assumptions=CLI),
    "P22": dict(tasks=[T("core", "counters", 5), T("sched", "counters", 3)], technique=SCHED, rule=GEN + SRULE + "the monitored callbacks count what the solver does; non-trivial as for P01", assumptions=TRUST),
    "P23": dict(tasks=[T("core", "utils")], rule="random bit sets and matrices against naive models; non-trivial when non-empty", assumptions=TRUST),
    "P24": dict(tasks=[T("core", "memory", 1), T("tsan", "memory", 4), T("asan", "memory", 1), T("msan", "memory", 1), T("core", "leak", 1)]
                + [T(f"asan-{b}", "admissible", tier="thorough", bare=True) for b in ("tsptw", "psp", "srflp")]
                + [T("miri", "memory", 2, args=["--tiny"], tier="thorough")],
                technique="sanitizers: ThreadSanitizer, AddressSanitizer, MemorySanitizer (standard library rebuilt) and, in depth, Miri, over randomised stress workloads; checked arithmetic and a monitor of live memory",
                rule=GEN + "resolutions, single diagrams, diagrams compiled by several threads over one table of thresholds, frontiers, sets and matrices, one case in seven with values near the ends of their type; non-trivial when several subproblems were processed or diagrams compiled",
                assumptions=["sanitizers see what was executed only; a clean run is not a proof of memory safety", "the harness's own code shares the instrumented process"]),
    "P25": dict(tasks=[T("core", "anytime", 5), T("sched", "anytime", 3)], technique=SCHED, rule=GEN + SRULE + "each problem is solved once and stopped at many polls, the bounds of successive stops being compared; then with several threads, stopped once the thread that processed the whole problem asks for more; non-trivial as for P01", assumptions=TRUST),
    "P26": dict(tasks=[T("core", "timeout")], technique="runtime monitoring: oracle over the exit code and output of processes that call the real helper",
                rule="one process per case, whose action ends long before, long after or within fractions of a millisecond of the limit; distinct durations count", assumptions=["the coincidence of the two threads is left to the operating system's scheduler"]),
    "P27": dict(tasks=[T("core", "queue", 5), T("sched", "queue", 3)], technique=SCHED, rule=GEN + SRULE + "a monitoring queue breaks ties at random; non-trivial as for P01", assumptions=TRUST),
    "P28": dict(tasks=[T("core", "rerun", 5), T("sched", "rerun", 3)], technique=SCHED, rule=GEN + SRULE + "one solver object is run two to four times, complete or stopped, and one queue is given to two solvers; non-trivial as for P01", assumptions=TRUST),
    "P29": dict(tasks=[T("core", "bestfirst")], rule=GEN + "a monitoring queue records bounds and work; the value known at a pop is learnt from a second run stopped there; non-trivial as for P01", assumptions=TRUST),
    "P30": dict(tasks=[T("core", "selection")], rule=GEN + "the calls of one compilation are recorded and the diagram they imply rebuilt; non-trivial when nodes were left out or merged for want of width", assumptions=TRUST),
    "P31": dict(tasks=[T("core", "paths")], rule=GEN + "the calls of one compilation are recorded and the diagram they imply rebuilt; non-trivial when the diagram had several layers and a longest path or a cutset was judged", assumptions=TRUST),
    "P32": dict(tasks=[T("core", "useless")], rule=GEN + "the calls of sequences of compilations, the barrier ones sharing a table, are recorded; non-trivial when nodes were withheld by a bound or a threshold", assumptions=TRUST),
    "P33": dict(tasks=[T("core", "repeat")], rule=GEN + "each resolution is run several times, some stopped, and its whole record of calls compared; non-trivial as for P01", assumptions=TRUST),
    "P34": dict(tasks=[T("core", "workers")], rule="tree problems whose open subproblems outnumber the threads, every subproblem waiting until as many as there are threads are being processed; non-trivial when several threads met", assumptions=TRUST + ["a meeting that has not happened after many seconds without progress does not happen"]),
    "P35": dict(tasks=[T("srflp", "options", 2, needs=["examples"])] + cli("config"), rule="the built programs and the library, configured alike, on the same random instances, and random legal and illegal names and values; non-trivial when several subproblems were processed", assumptions=CLI),
    "P36": dict(tasks=[T("tsptw", "bench"), T("psp", "bench"), T("srflp", "bench")], rule="each shipped instance of moderate size solved by several random configurations stopped at random moments; non-trivial when the runs processed several subproblems",
                assumptions=["instances of up to 41 stops, 150 periods or 36 departments; the optimum is known by dynamic programming for up to 16 departments only", "the TSPTW model is amended where DESIGN.md lists known defects"]),
    "P37": dict(tasks=[T("core", "fresh")], rule=GEN + "sequences of two to six compilations by one diagram, each compared with that of a new one, on problems whose paths all differ in length; non-trivial when several nodes were expanded", assumptions=TRUST),
    "P38": dict(tasks=[T("core", "rising")], rule=GEN + "sequences of compilations by one or two diagrams sharing a table, often from one root; non-trivial when thresholds rose or were demanded of nodes expanded above a merge", assumptions=TRUST),
    "P39": dict(tasks=[T("tsptw", "wellformed"), T("psp", "wellformed"), T("srflp", "wellformed")], rule="walks down the layers of random and shipped instances among genuine and merged states; non-trivial when states were merged", assumptions=["what the walks did not meet was not judged"]),
    "P40": dict(tasks=[T("core", "panics", 4), T("sched", "panics", 4)], technique=SCHED + "; faults injected in callbacks", rule=GEN + SRULE + "a random callback panics at a random moment of a resolution that takes several subproblems; non-trivial when it did", assumptions=TRUST + ["a resolution is blocked for good when none of its threads uses CPU or is switched in for 6 s"]),
    "P41": dict(tasks=[T("core", "idle")], technique="runtime monitoring: processor clock and count of polls read from inside the user's callbacks", rule="a tree whose root has fewer children than there are threads; those with work sleep in the width heuristic while the others have none; non-trivial when such a nap was measured", assumptions=TRUST + ["a thread that spins gets some of a processor in each of three naps of 15 ms"]),
}

# quick checks whose cases cost most take longer than the 20 s of the others
for _p in ("P16", "P17", "P18", "P36"):
    PLAN[_p]["secs"] = 30
