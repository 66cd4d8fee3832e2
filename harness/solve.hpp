// A reachability question: pushdown system, initial set, final set; with its PDAAAL instance in one of several constructions.
#pragma once
#include "adapt.hpp"
namespace solve {
using namespace adapt;
using pdaaal::Solver; using pdaaal::Trace_Type; using pdaaal::TraceInfoType;

struct Case { Pds d; gen::Lang I, F; };
inline Case make(pbt::Src& s, pbt::Ctx& c, const gen::PdsGen& g, const char* what) {
    Case k;
    if (s.coin(1, 12)) { auto [d, IF] = gen::fan(s, g); k.d = d; k.I = IF.first; k.F = IF.second; c.label("many labels side by side"); }
    else if (s.coin(1, 2)) { auto [d, IF] = gen::directed(s, g); k.d = d; k.I = IF.first; k.F = IF.second; }
    else { k.d = gen::pds(s, g); k.I = gen::lang(s, k.d, 2); k.F = gen::target(s, k.d, k.I, 2); }
    if (s.coin(1, 8)) gen::add_eps(s, k.I); if (s.coin(1, 8)) gen::add_eps(s, k.F);
    if (!k.I.raw.empty() || !k.F.raw.empty()) c.label("epsilon edges in a given automaton");
    c.note([&] { return std::string(what) + "\n" + show(k.d) + "initial: " + gen::show(k.I) + "\nfinal: " + gen::show(k.F); });
    return k;
}
// Non-trivial: there are rules, and neither set is empty.
inline void classify(pbt::Ctx& c, const Case& k, bool reach) {
    c.label(reach ? "reachable" : "unreachable");
    if (reach) {
        // reachable without using any rule?
        Pds none = k.d; none.rules.clear();
        bool zero = PreStar(none, k.F.pa, BOOL).solve(k.I.pa).has_value();
        c.label(zero ? "reachable without rules" : "reachable only by using rules");
    }
    if (!k.d.rules.empty() && !k.I.pa.empty_lang() && !k.F.pa.empty_lang()) c.nontrivial();
}
// Instance built directly from NFAs (only for sets given as states x regex).
template <class WT, TraceInfoType tt = TraceInfoType::Single> using inst_t = pdaaal::SolverInstance<char, pdaaal::weight<WT>, size_t, true, tt>;
// The engine says which of the two automata is only read, and so may have epsilon edges.
enum Engine { BOTH, POST, PRE };
template <class WT, TraceInfoType tt = TraceInfoType::Single>
inst_t<WT, tt> instance(const Case& k, bool from_nfa, Engine e = BOTH) {
    auto p = pda<WT>(k.d);
    if (from_nfa) {
        auto a = nfa(k.I.re), b = nfa(k.F.re); a.compile(); b.compile();
        return inst_t<WT, tt>(std::move(p), a, k.I.states, b, k.F.states);
    }
    auto i = automaton<WT, tt>(p, k.I, e == PRE); auto f = automaton<WT, tt>(p, k.F, e == POST);
    return inst_t<WT, tt>(std::move(p), std::move(i), std::move(f));
}
} // namespace solve
