#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PR = []
I = "src/include/pdaaal/"
def prop(id, title, statement, over, text, why, files, mech, tech, note):
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))
SAT = [I + "internal/PdaSaturation.h", I + "PAutomatonProduct.h", I + "Solver.h", I + "internal/PAutomaton.h", I + "SolverInstance.h"]
SATM = [("post*, pre* and dual saturation", I + "internal/PdaSaturation.h"), ("product kept up to date during saturation (early termination)", I + "PAutomatonProduct.h"), ("search entry points", I + "Solver.h")]
TRUST = "Random sampling, no proof. Trusts the reference model in harness/model.hpp and the stand-in for the ptrie containers (verif/shim), which this sandbox lacks."

prop("S01", "Every search engine gives the exact reachability verdict",
 "For a pushdown system, a regular set of initial configurations and a regular set of final configurations, post*, pre*, dual search, the interleaved search and the shortest-trace and no-early-termination variants all report 'reachable' exactly when some run of the rules leads from an initial to a final configuration. The engines therefore agree with each other, however the sets were described.",
 ["inputs", "configurations"], "all pushdown systems, all pairs of regular configuration sets, all engines and modes",
 "The existing solver tests fix about a dozen hand-written systems and mostly one engine each (and need a library missing here, so none of them is in the stable list); wrong saturation steps show only for particular combinations of rule kinds, epsilon edges and edge order.",
 SAT, SATM, "differential property-based testing of all engines against a naive reference pre*", TRUST)
prop("S02", "A returned trace is a real run from the initial to the final set",
 "Whenever a search reports 'reachable', the trace it returns starts in a configuration of the initial set, ends in one of the final set, and every step is an application of one rule of the system to the configuration before it.",
 ["inputs"], "all systems and sets whose final set is reachable, all engines",
 "Tests compare the trace of a few systems; trace reconstruction walks labels written during saturation in an order that depends on the whole input.",
 SAT, [("trace labels written with each edge", I + "internal/PdaSaturation.h"), ("trace reconstruction", I + "Solver.h")], "property-based testing, trace replayed step by step in a reference semantics", TRUST)
prop("S03", "Shortest-trace searches return a run of minimal total weight",
 "With non-negative weights (scalars, arrays or vectors compared lexicographically), the shortest-trace mode of every engine (post*, pre*, dual and interleaved search) reports the least total weight of any run from the initial to the final set, and the trace it returns is a run of exactly that weight.",
 ["inputs"], "all weighted systems with non-negative weights, all weight domains",
 "The tests have a handful of weighted systems; optimality is a statement about all runs, and relaxation order, ties and epsilon edges decide whether a better run is missed.",
 SAT + [I + "Weight.h"], [("Dijkstra-ordered saturation", I + "internal/PdaSaturation.h"), ("weighted product search", I + "PAutomatonProduct.h")], "differential property-based testing against a naive weighted pre* fixed point", TRUST)
prop("S04", "Fixed-point searches give the exact optimum, or say it is unbounded",
 "For weights of either sign and for longest as well as shortest traces, the fixed-point search reports the exact optimum over all runs when it exists, reports infinity exactly when runs can improve without bound, and reports 'no run' exactly when the final set is unreachable. A finite optimum comes with a run of exactly that weight.",
 ["inputs"], "all systems with scalar or tuple weights of either sign, minimised or maximised",
 "A negative (or positive) cycle may hide in a push/pop summary, in the product, or be unreachable; tests have a few examples of each.",
 SAT + [I + "Weight.h"], [("fixed-point saturation with round limit and negative-cycle detection", I + "internal/PdaSaturation.h"), ("fixed-point path search", I + "internal/PAutomatonAlgorithms.h")], "differential property-based testing against a reference fixed point with cycle analysis", TRUST + " Tuples whose lower-priority component alone is unbounded are left out (known finding KF1).")
prop("S05", "Saturated automata accept exactly the reachable configurations",
 "After a forward (backward) saturation run to completion, the automaton accepts exactly the configurations reachable from (able to reach) a configuration the given automaton accepted. A trace asked for one of those configurations is a run linking it to the given set, of least weight in the weighted mode, and for any other configuration there is no trace.",
 ["inputs"], "all pushdown systems, all regular sets, all configurations asked",
 "Tests ask a few configurations of a few systems.",
 SAT, SATM, "differential property-based testing against reference closures and bounded exploration", TRUST)
prop("S06", "Rule traces name rules of the system and fit their accepting paths",
 "The rule-level witness of a search consists of an initial configuration, a sequence of rules of the system that apply one after the other from it, and the configuration they lead to. The automaton paths returned with it are accepting paths of the original initial and final automata for exactly these two configurations, and in the shortest mode the rules' weights sum to the reported optimum.",
 ["inputs"], "all systems and sets, all engines that can return rules",
 "Only a couple of systems are tested, none with two rules that differ in weight only.",
 SAT, [("rule trace and path reconstruction", I + "Solver.h"), ("trace labels", I + "internal/PdaSaturation.h")], "property-based testing, rules replayed in a reference semantics", TRUST)
prop("N01", "NFA combinators build exactly the regular-language operations",
 "Building an automaton from label sets, negated label sets, any-label and empty-word, and combining automata with concatenation, union, star, plus and optional, accepts exactly the words of the corresponding regular expression; copies, moved-to and assigned-to automata accept the same words as their source, and the source of a copy is unaffected by later changes.",
 ["inputs", "histories"], "all regular expressions, all sequences of combinators, copies and moves, all words",
 "The three NFA tests build three fixed expressions and check a few edges.",
 [I + "NFA.h"], [("combinators, copy and move", I + "NFA.h")], "model-based property testing against a reference regular-expression matcher", "Random sampling of expressions up to depth 5 and words up to length 6; trusts the reference matcher.")
prop("N02", "NFA inspection agrees with the automaton's own transitions",
 "What an automaton reports about itself agrees with its transitions read as a graph: the states reached by epsilon moves and by a label, whether a state is such a successor, the labels an edge stands for and whether it stands for none or all, the labels leading to a state, back edges, initial and accepting states. Compiling makes the initial states the epsilon closure of the original ones, and drawing shows every edge once.",
 ["inputs"], "all automata built by any history of combinators",
 "Tests look at single edges of tiny automata.",
 [I + "NFA.h"], [("compile, follow_epsilon, back edges, printing", I + "NFA.h")], "property-based testing against graph search over the same automaton and a reference matcher", "Random sampling; trusts the reference matcher.")
prop("N03", "The regular-expression parser reads what the text means",
 "Parsing a regular-expression text yields an automaton for exactly the language its grammar gives it (sets, negated sets, any, quoted labels, concatenation, alternatives, star, plus, optional, precedence and white space); different spellings of the same expression give the same language. A malformed text is rejected with an error instead of being read as something else.",
 ["inputs"], "all texts",
 "The parser tests hold some twenty fixed strings.",
 [I + "parsing/NfaParser.cpp", I + "parsing/NfaParserGrammar.h", I + "parsing/NfaParser.h"], [("grammar", I + "parsing/NfaParserGrammar.h"), ("actions building the NFA", I + "parsing/NfaParserGrammar.h")], "grammar-based generation (print then parse) and mutation, against a reference matcher", "Random sampling of texts; trusts the reference matcher and the reference grammar in the harness.")
prop("W01", "Weight domains are ordered, additive and saturate at their extremes",
 "For every weight type (signed, unsigned and floating scalars, fixed arrays, variable-length vectors; minimised or maximised): addition is exact, commutative, associative and has a neutral zero; the comparison is the strict lexicographic order (reversed when maximising) and is preserved by adding the same weight; 'unreachable' is worse than and absorbs every weight, 'unboundedly good' is better than and absorbs every finite weight. Sums beyond the range of the type do not wrap around.",
 ["inputs"], "all weights of all supported types, including extreme values",
 "The weight tests add and compare a few vectors.",
 [I + "Weight.h"], [("weight arithmetic", I + "Weight.h")], "algebraic-law property testing against exact 128-bit reference arithmetic", "Random sampling biased to the ends of the ranges.")
prop("W02", "Weight functions evaluate to the linear combination they were built from",
 "A weight function built from label functions and coefficients evaluates, for every argument, to the sum of coefficient times part, nested to any depth, computed in the weight's own type; an ordered function evaluates to the tuple of its parts in order.",
 ["inputs"], "all function trees, all arguments, all weight types",
 "One test evaluates a few fixed functions.",
 [I + "Weight.h"], [("linear and ordered weight functions", I + "Weight.h")], "property-based testing against direct evaluation of the expression tree", "Random sampling; trusts the direct evaluation.")
prop("D01", "Tuple sets and sorted containers behave like sets and maps",
 "For every history of insertions, assignments, look-ups, removals from the end and copies, the sorted-vector set and map and the nested tuple sets (hashed or sorted on each level) hold exactly the elements an ordinary set or map would hold, report insertion and presence accordingly, and the sorted ones iterate in increasing key order without duplicates.",
 ["histories"], "all operation histories, key types and storage kinds",
 "Tests insert a handful of fixed tuples per container kind.",
 [I + "utils/fut_set.h", I + "utils/vector_set.h"], [("tuple set", I + "utils/fut_set.h"), ("sorted vectors", I + "utils/vector_set.h")], "stateful model-based testing against std::map and std::set", "Random histories of up to about 56 operations; trusts the standard containers.")
prop("D02", "A pushdown system holds exactly the rules that were added",
 "After any history of adding rules (for one label, several labels or all labels; with labels, ids or wildcards; with or without weights; with hashed or sorted storage), the system lists exactly the rules added, once each, the number of states and labels is right, and every state knows the states with rules into it. Conversion from the builder's storage to the solver's preserves this, and clearing a state removes exactly the rules from and into it.",
 ["histories"], "all histories of rule, label and state additions",
 "Tests add a few rules and check sizes.",
 [I + "PDA.h", I + "internal/PDA.h", I + "internal/PDA.cpp"], [("rule storage", I + "internal/PDA.h"), ("typed wrapper", I + "PDA.h")], "stateful model-based testing against a set of rules", "Random histories; trusts the ptrie stand-in for label numbering.")
prop("D03", "Search helpers: disjointness, priority queue, flag sets and list printing",
 "The test whether two sorted sequences are disjoint is exact for all lengths and gaps; the search priority queue hands out every element put in once, at its best weight, best first; flag sets contain exactly the flags added and not removed, and list exactly those missing; lists print all elements in order between their delimiters.",
 ["histories", "inputs"], "all sequences, all histories of queue and flag operations",
 "No test touches these helpers directly.",
 [I + "utils/more_algorithms.h", I + "utils/flags.h", I + "utils/vector_printer.h"], [("disjointness, priority set", I + "utils/more_algorithms.h"), ("flags", I + "utils/flags.h"), ("list printing", I + "utils/vector_printer.h")], "stateful model-based testing against the plain definitions", "Random histories; trusts the standard containers.")
prop("A01", "Automata built for a set accept exactly that set",
 "An automaton over a system's states, built edge by edge, from states and an NFA, or as a union of such automata, accepts exactly the configurations described; it answers the same after being copied or moved. Accepting paths it returns are real accepting paths for the configuration (of least weight where asked for), a path to some accepted configuration is found exactly when the set is non-empty.",
 ["inputs", "histories"], "all automata and NFAs, all label orders, all configurations",
 "Tests build a few automata and ask a few words.",
 [I + "internal/PAutomaton.h", I + "PAutomaton.h", I + "internal/PAutomatonAlgorithms.h"], [("construction from NFA, acceptance, path search", I + "internal/PAutomaton.h")], "property-based testing against a reference automaton", TRUST)
prop("A02", "The automaton product tracks the intersection exactly as edges are added",
 "The product of an initial and a final automaton, kept up to date while edges (including epsilon edges) are added to either, reports an intersection exactly when some configuration is accepted by both, at every point of the history. The path it then returns splits into accepting paths of the two automata for the same configuration.",
 ["histories"], "all pairs of automata and all orders of additions in forward, backward and dual mode",
 "No test drives the product directly.",
 [I + "PAutomatonProduct.h"], [("incremental product", I + "PAutomatonProduct.h")], "stateful model-based testing against a reference intersection", TRUST)
prop("A03", "Automaton paths return what was put on them, in order",
 "For every history of putting edges on the front of a path and taking them off, the path reports the states, labels and length of exactly the edges on it; splitting a path of pairs gives the two component paths; equality and hashing follow the contents; epsilon edges are left out of the reported configuration.",
 ["histories"], "all operation histories",
 "One test builds one path.",
 [I + "AutomatonPath.h"], [("path operations", I + "AutomatonPath.h")], "stateful model-based testing against a list of edges", "Random histories; trusts the list model.")
prop("A04", "The graph drawn of an automaton is that automaton",
 "The dot graph printed for an automaton or for the product of two, before or after a search saturated them, has exactly the states and transitions of the automaton: every state once, accepting states and only they as double circles, every transition with exactly its labels (including epsilon, and * only when all labels are there) and, in weighted systems, the weight of each label (with its infinite values written as such); the control states and only they are marked as initial. Names of states and labels are the ones the user gave.",
 ["inputs", "configurations"], "all automata, before and after forward, backward and dual search, in all weight domains, with given or default printers",
 "No test reads a printed graph.",
 [I + "internal/PAutomaton.h", I + "PAutomatonProduct.h"], [("printing of automata", I + "internal/PAutomaton.h"), ("names", I + "PAutomatonProduct.h")], "round-trip property testing: the printed graph is parsed and compared with the automaton in memory", TRUST)
prop("R01", "Reducing a system never changes what is reachable",
 "Removing rules by the static reduction, at any level, keeps the answer it was asked to preserve: starting with the rules of the initial state (which push onto the empty stack), the target state is reachable after the reduction exactly when it was before, and with the same least weight. The reduction only ever removes rules or narrows the labels they apply to, and level zero changes nothing.",
 ["inputs", "configurations"], "all systems of the form the reducer is made for, all reduction levels",
 "The reducer tests have a few small systems.",
 [I + "internal/Reducer.h", I + "internal/Reducer.cpp"], [("forward and backward reduction", I + "internal/Reducer.h"), ("second level", I + "internal/Reducer.cpp")], "metamorphic property testing (before = after) with a reference solver", TRUST)
C = I + "cegar/"
prop("D04", "Interning containers number keys consistently",
 "The set and map used to number labels, states and keys of any kind (integers, text, fixed structures, sequences) give every distinct key its own number, counting up from zero in order of first insertion, report whether a key was new, find exactly the keys inserted, give back for every number exactly the key it stands for, and keep the value last assigned to each key. Iterating visits every key once.",
 ["histories"], "all key types and all histories of insertions and look-ups",
 "No test drives the interning layer; the solver tests use it with a handful of one-letter labels.",
 [I + "utils/ptrie_interface.h"], [("key conversion and iteration", I + "utils/ptrie_interface.h")], "stateful model-based testing against std::map", "Random histories; the ptrie containers underneath are replaced by the stand-in in shim/.")
prop("F01", "Factories compile the system their successor function describes",
 "An instance compiled by a factory from initial states, accepting states, label set and rules (listed, or explored on demand from the initial states) answers reachability, and returns traces and weights, exactly as the system described by those rules with the given initial and final headers; also when an initial or accepting state has no rule, and after the instance has been moved.",
 ["inputs"], "all successor functions, state sets and header expressions",
 "The factory test compiles one system.",
 [I + "PDAFactory.h", I + "SolverInstance.h"], [("exploration and compilation", I + "PDAFactory.h"), ("instance", I + "SolverInstance.h")], "differential property-based testing against a reference pre*", TRUST)
prop("G01", "Abstraction refinement gives the concrete system's answer",
 "For every concrete system and every abstraction of its states and labels, the refinement loop (post*, pre* or dual search inside; quick or best refinement) ends after finitely many refinements, finds a run exactly when the concrete system has one from an initial configuration to a final one, and the run it returns is a run of the concrete system.",
 ["inputs", "configurations"], "all concrete systems, abstractions, header expressions and loop configurations",
 "One test covers one small example and needs a library missing here; spurious abstract traces of each kind arise only for particular combinations of abstraction, rules and headers.",
 [C + "CegarPdaFactory.h", C + "AbstractionSolverInstance.h", C + "AbstractionPDA.h", C + "AbstractionPAutomaton.h"], [("refinement loop and its abstract instance", C + "CegarPdaFactory.h"), ("abstract instance, headers and reconstruction", C + "CegarPdaFactory.h")], "differential property-based testing: the loop on random abstractions against direct reachability in the concrete system", TRUST + " The concrete side of the loop (rules and search by the user) is the harness's own.")
prop("G02", "Refinements tell apart exactly what had to be told apart",
 "A refinement made from two sets of elements (or of pairs, with or without wildcards) puts no element of one set with an element of the other set it must be told apart from, and mentions each element in one part only. Combining refinements of the same class keeps all separations of each and merges only what none of them tells apart.",
 ["inputs", "histories"], "all finite sets and pair sets, all sequences of combinations",
 "No test checks refinements apart from one end-to-end example.",
 [C + "Refinement.h"], [("combining, pair separation", C + "Refinement.h")], "property-based testing against the defining separation relation", "Random sampling of sets up to about ten elements.")
prop("G03", "Abstraction mappings partition the concrete values through all refinements",
 "After any history of insertions and refinements, every concrete value belongs to exactly one abstract value; two values share it exactly when the abstraction function and all refinements so far put them together; the concrete values listed for an abstract one are exactly its members; new abstract values get fresh numbers. A header expression over concrete labels is translated to abstract labels that cover every concrete word it allows, with abstract labels wholly excluded left out.",
 ["histories"], "all value sets, abstraction functions and refinement histories",
 "No test refines a mapping twice.",
 [C + "AbstractionMapping.h", C + "AbstractionPDA.h"], [("mapping and refinement", C + "AbstractionMapping.h"), ("label encoding", C + "AbstractionPDA.h")], "stateful model-based testing against an explicit partition", "Random histories; trusts the explicit partition.")

B = "src/pdaaal-bin/"
prop("J01", "JSON pushdown systems are read as written, or rejected",
 "Reading a JSON description of a pushdown system (named or indexed states, no weights, unsigned, signed or vector weights) gives exactly the states, labels, rules and weights it lists, whatever the order of members and of unknown extra members; and any file that does not follow the format is rejected with an error, never silently read as something else or a crash.",
 ["inputs"], "all JSON documents",
 "The tests read a few well-formed files.",
 [B + "parsing/PdaJsonParser.h", I + "PDA.h"], [("event-driven reader", B + "parsing/PdaJsonParser.h")], "generative and mutation-based testing against a reference reader over the document tree", "Random sampling; trusts the JSON library's tokenizer and the reference reader.")
prop("J02", "Automaton files are read as the set they describe, or rejected",
 "Reading a set of configurations, given as a JSON automaton (states by name or number, also states that are not in the pushdown system) or as text (state lists with regular expressions, alternatives, comments, quoted names), gives an automaton with exactly the configurations the file describes; printing it as JSON and reading that again gives the same set; and a file that does not follow the format, or names an unknown state where one of the system is needed, is rejected with an error, never silently read as something else or a crash.",
 ["inputs"], "all JSON documents, all texts, and all pushdown systems they refer to",
 "The tests read two small automata and check no malformed file.",
 [B + "parsing/PAutomatonJsonParser.h", B + "parsing/PAutomatonParser.h", I + "PAutomaton.h"], [("JSON reader", B + "parsing/PAutomatonJsonParser.h"), ("text grammar and builder", B + "parsing/PAutomatonParser.h"), ("JSON printer", I + "PAutomaton.h")], "generative and mutation-based testing against a reference reader, with print/read round trips", "Random sampling; trusts the JSON tokenizer and the reference readers.")
prop("J03", "Instance files are read as written, or rejected",
 "Reading a reachability instance from JSON or MessagePack (header with state naming and weight type, pushdown system, initial and final automaton) gives exactly the system and the two sets it describes, with the announced kind of states and weights; printing an instance and reading it again changes nothing; and any document that does not follow the format is rejected with an error.",
 ["inputs"], "all JSON and MessagePack documents",
 "No test reads instance files apart from one example; the reader switches handlers in the middle of the document, which only unusual documents exercise.",
 [B + "parsing/SolverInstanceJsonParser.h", B + "parsing/PdaJsonParser.h", B + "parsing/SaxHandlerDispatch.h", I + "PAutomatonProduct.h"], [("instance reader", B + "parsing/SolverInstanceJsonParser.h"), ("header reader", B + "parsing/PdaJsonParser.h"), ("instance printer", I + "PAutomatonProduct.h")], "generative and mutation-based testing against a reference reader, with print/read round trips", "Random sampling; trusts the JSON tokenizer and the reference readers.")

prop("J04", "The command-line tool answers the question its arguments ask",
 "For a question given on the command line (pushdown system, initial and final set in files, on standard input or as one instance file; engine; trace type), the tool prints one JSON object whose verdict says whether the final set is reachable, whose weight is the optimum asked for (or infinite), and whose trace, when asked for, is a run of the system from the initial to the final set of that weight, with states numbered in the order the file first mentions them and labels by name. Systems and instances it is asked to print say the same as its input. Malformed command lines, missing or malformed files and questions that cannot be answered (unknown engine or trace type, optimal trace without weights) end with an error and no verdict.",
 ["inputs", "configurations"], "all command lines and all well-formed and malformed input files",
 "No test runs the tool; engine and trace type are selected by nested switches per weight type, of which the library tests cover none.",
 [B + "main.cpp", B + "Verifier.h", B + "parsing/Parsing.h", B + "parsing/Parsing.cpp", B + "utils/json_stream.h"], [("choice of search, weight and trace", B + "Verifier.h"), ("options and input files", B + "parsing/Parsing.cpp"), ("output", B + "main.cpp")], "end-to-end property-based testing: the tool run in process on generated questions, against a naive reference solver", TRUST)
prop("J05", "Printed JSON documents say exactly what was written to them",
 "For every history of entries and nested objects (empty ones, ones left open when the document is closed, several documents after each other, any keys and values), the JSON printer writes one well-formed document with exactly these entries in order.",
 ["histories"], "all histories of operations, all keys and values",
 "No test uses the printer.",
 [B + "utils/json_stream.h"], [("printer", B + "utils/json_stream.h")], "stateful model-based testing against the document tree", "Random histories; trusts the JSON library's parser.")

def main():
    for p in PR:
        for x in p["files"] + [b for _, b in p["mech"]]: assert os.path.exists("/repo/" + x), x
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PR:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    man = dict(version=1, setup_cmd="python3 run.py list", checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        technique=p["tech"], level="exploration", level_note=p["note"]) for p in PR], not_applicable=[],
        notes="All checks: generated-input search by the runner in harness/pbt.hpp, driven by run.py. No hooks in /repo. Genuine defects repaired in /repo and known findings: KNOWN_FINDINGS.txt.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
