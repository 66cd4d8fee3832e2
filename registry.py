"""Which harness decides which property, with how many cases."""
NT_REACH = "Random pushdown systems (1-6 states, 1-4 labels, 0-22 rules incl. wildcard and multi-label rules; half of them grown along a run so that the target is several rules away), initial and final sets as states x regular expression or as explicit automata. "

def P(file, part, quick, thorough, **kw):
    d = {"file": file, "flags": ["-DPART=%d" % part], "quick": quick, "thorough": thorough}
    fl = kw.pop("flags", [])
    d["flags"] += fl
    d.update(kw)
    return d

REG = {}
REG["S01"] = dict(
    rule=NT_REACH + "Non-trivial: has rules, and neither set is empty.",
    parts=[P("S01.cpp", 0, 120000, 2400000, name="unweighted"), P("S01.cpp", 1, 72000, 1440000, name="uint weights"), P("S01.cpp", 2, 24000, 480000, name="int weights, fixed point"), P("S01.cpp", 3, 2800, 80000, name="embedded in a large system, deep stacks")])
REG["S02"] = dict(
    rule=NT_REACH + "Non-trivial: at least one engine returned a trace with at least one step.",
    parts=[P("S02.cpp", 0, 140000, 2800000, name="unweighted"), P("S02.cpp", 1, 90000, 1800000, name="uint weights"), P("S02.cpp", 2, 24000, 480000, name="int weights, fixed point"), P("S02.cpp", 3, 2800, 80000, name="embedded in a large system, deep stacks")])
REG["S03"] = dict(
    rule=NT_REACH + "Rule weights 0..5 (sometimes 0..1, 0..1000 or 0..4e8). Non-trivial: has rules, and neither set is empty.",
    parts=[P("S03.cpp", 0, 64000, 1680000, name="uint"), P("S03.cpp", 1, 44000, 1120000, name="int"), P("S03.cpp", 2, 44000, 1120000, name="array<uint,2>"), P("S03.cpp", 3, 40000, 960000, name="vector<uint>"), P("S03.cpp", 4, 2800, 80000, name="embedded in a large system, deep stacks")])
REG["S04"] = dict(
    rule=NT_REACH + "Rule weights -4..4 (int) or 0..4 (uint), scalars and tuples. Non-trivial: has rules and the target is reachable.",
    parts=[P("S04.cpp", 0, 20800, 416000, name="int shortest"), P("S04.cpp", 1, 20800, 416000, name="int longest"), P("S04.cpp", 2, 15600, 312000, name="uint"),
           P("S04.cpp", 3, 7800, 156000, name="vector<int> shortest"), P("S04.cpp", 4, 7800, 156000, name="vector<int> longest"), P("S04.cpp", 5, 10400, 208000, name="array<int,2> shortest"), P("S04.cpp", 6, 7800, 156000, name="vector<uint> longest"), P("S04.cpp", 8, 2400, 60000, name="embedded in a large system"), P("S04.cpp", 7, 1, 1, name="recorded finding KF1", finding="KF1")])
REG["S05"] = dict(
    rule=NT_REACH + "For each, 3-12 configurations are asked: members of the sets, configurations along random runs, random ones. Non-trivial: some asked configuration is in the closure through at least one rule.",
    parts=[P("S05.cpp", 0, 72000, 1440000, name="unweighted"), P("S05.cpp", 1, 48000, 960000, name="uint weights")])
REG["S06"] = dict(
    rule=NT_REACH + "Non-trivial: some witness has at least one rule.",
    parts=[P("S06.cpp", 0, 120000, 2400000, name="unweighted"), P("S06.cpp", 1, 90000, 1800000, name="uint weights")])
REG["N01"] = dict(rule="Random NFAs over 0-5 labels built by the combinators (leaves: label sets, negated sets, any, empty word, nothing), words sampled from the language, near it and at random. Non-trivial: see the labels; the language has an accepted and a rejected word among those asked.",
    parts=[P("N01.cpp", 0, 240000, 4800000, name="combinators", lib=False)])
REG["N02"] = dict(rule="Random NFAs as in N01.", parts=[P("N02.cpp", 0, 240000, 4800000, name="inspection", lib=False)])
REG["N03"] = dict(rule="Random regular expressions rendered as text with random spacing, bracketing and quoting, and mutated texts.", parts=[P("N03.cpp", 0, 600000, 12000000, name="parser")])
REG["W01"] = dict(rule="Random weights (scalars, tuples, vectors of different length) incl. the extreme values.", parts=[P("W01.cpp", 0, 4800000, 96000000, name="weights", lib=False)])
REG["W02"] = dict(rule="Random weight expressions over random label functions.", parts=[P("W02.cpp", 0, 6400000, 128000000, name="weight functions", lib=False)])
REG["D01"] = dict(rule="Random histories of operations against std::map/std::set.", parts=[P("D01.cpp", 0, 2000000, 40000000, name="tuple sets and sorted containers", lib=False)])
REG["D02"] = dict(rule="Random histories of rule additions against a set of rules.", parts=[P("D02.cpp", 0, 840000, 16800000, name="rule store")])
REG["D03"] = dict(rule="Random sorted sequences, histories of priority-queue and flag operations, lists to print. Non-trivial: both sequences have several elements; more than two elements taken out; more than three flag operations; several elements printed.", parts=[P("D03.cpp", 0, 8000000, 160000000, name="work lists", lib=False)])
REG["A03"] = dict(rule="Random histories of path operations against a list of edges.", parts=[P("A03.cpp", 0, 2000000, 40000000, name="paths", lib=False)])
REG["A04"] = dict(rule="Random systems and automata (also with named states), before and after a forward, backward or dual search; graphs printed with and without given printers, read back. Non-trivial: the system has rules and a search was run.",
    parts=[P("A04.cpp", 0, 60000, 1200000, name="unweighted"), P("A04.cpp", 1, 50000, 1000000, name="uint and int weights"), P("A04.cpp", 2, 50000, 1000000, name="int and vector weights")])
REG["R01"] = dict(rule="Random weighted pushdown systems (2-6 states, 1-4 labels) whose start state only pushes on the empty stack; all aggressivity levels. Non-trivial: the target is reachable and the reduction removed rules.",
    parts=[P("R01.cpp", 0, 480000, 9600000, name="reduction")])
REG["A01"] = dict(rule="Random explicit automata and states x regular expression over random pushdown systems; words sampled from the language, near it and at random. Non-trivial: an accepted and a rejected configuration among those asked.",
    parts=[P("A01.cpp", 0, 400000, 8000000, name="languages")])
REG["A02"] = dict(rule="Random pairs of automata. Non-trivial: see the labels.",
    parts=[P("A02.cpp", 0, 720000, 14400000, name="products")])
REG["F01"] = dict(rule="Random pushdown systems given as a successor function, initial and accepting states (some without any rule). Non-trivial: has rules, and neither set is empty.",
    parts=[P("F01.cpp", 0, 240000, 4800000, name="unweighted"), P("F01.cpp", 1, 180000, 3600000, name="uint weights")])
REG["G01"] = dict(rule="Random concrete pushdown systems with random abstractions of states and labels, and random header expressions. Non-trivial: at least one refinement was needed.",
    parts=[P("G01.cpp", 0, 150000, 3000000, name="string labels"), P("G01.cpp", 1, 150000, 3000000, name="char labels")])
REG["G02"] = dict(rule="Random partial partitions to be combined and random pairs of sets to be told apart. Non-trivial: at least two partitions were combined; both sides have several elements.",
    parts=[P("G02.cpp", 0, 1200000, 24000000, name="refinements", lib=False)])
REG["G03"] = dict(rule="Random histories of insertions and refinements; random label sets encoded. Non-trivial: more than two operations with a refinement; classes that are neither all apart nor all together.",
    parts=[P("G03.cpp", 0, 500000, 10000000, name="mappings")])
REG["D04"] = dict(rule="Random histories of insertions and look-ups with numeric, text and sequence keys. Non-trivial: more than two keys, and some key was inserted again.",
    parts=[P("D04.cpp", 0, 1000000, 20000000, name="interning", lib=False)])
REG["J01"] = dict(rule="Random pushdown systems rendered as JSON (named or indexed states, all weight kinds, random key order, ignorable extra members), and structurally mutated files. Non-trivial: a file with rules that is accepted, or a file rejected for a mutation.",
    parts=[P("J01.cpp", 0, 500000, 10000000, name="pushdown files")])
REG["J02"] = dict(rule="Random sets of configurations as JSON automata (named, numbered and mixed extra states, epsilon edges, new labels) or as text with regular expressions, and structurally or textually mutated files. Non-trivial: a file read with an accepted and a rejected configuration among those asked, or a malformed file rejected.",
    parts=[P("J02.cpp", 0, 400000, 8000000, name="automaton files")])
REG["J03"] = dict(rule="Random instances (pushdown system, initial and final automaton, header) as JSON or MessagePack, and mutated files. Non-trivial: an accepted file with at least two rules, or a mutated file rejected.",
    parts=[P("J03.cpp", 0, 200000, 4000000, name="instance files")])
REG["J05"] = dict(rule="Random histories of entries and nested objects, also left open, with keys and values that need escaping. Non-trivial: more than one operation and a nested object.",
    parts=[P("J05.cpp", 0, 1000000, 20000000, name="JSON printer", lib=False)])
REG["J04"] = dict(rule="Random questions as files or standard input of the command-line tool. Non-trivial: a reachable target with rules, a trace with steps, or an error.",
    parts=[P("J04.cpp", 0, 64000, 1280000, name="command line", cxx=["clang++", "-std=gnu++20", "-w", "-g1", "-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"], src=["src/pdaaal-bin/parsing/Parsing.cpp"], libs=["-lboost_program_options"])])
