// Builds PDAAAL objects from model objects, and reads PDAAAL results back.
#pragma once
#include "gen.hpp"
#include <pdaaal/NFA.h>
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/SolverInstance.h>
#include <pdaaal/Solver.h>

namespace adapt {
using namespace model;
template <class T> struct wconv;
template <> struct wconv<void> { };
template <class I> struct wscalar { static I to(const Wt& w) { return static_cast<I>(w.empty() ? 0 : w[0]); } static Wt from(const I& i) { return Wt{static_cast<long long>(i)}; } };
template <> struct wconv<uint32_t> : wscalar<uint32_t> {};
template <> struct wconv<int> : wscalar<int> {};
template <> struct wconv<uint64_t> : wscalar<uint64_t> {};
template <> struct wconv<int64_t> : wscalar<int64_t> {};
template <class I, size_t N> struct wconv<std::array<I, N>> {
    static std::array<I, N> to(const Wt& w) { std::array<I, N> a{}; for (size_t i = 0; i < N && i < w.size(); ++i) a[i] = static_cast<I>(w[i]); return a; }
    static Wt from(const std::array<I, N>& a) { Wt w; for (auto x : a) w.push_back(static_cast<long long>(x)); return w; }
};
template <class I> struct wconv<std::vector<I>> {
    static std::vector<I> to(const Wt& w) { std::vector<I> a; for (auto x : w) a.push_back(static_cast<I>(x)); return a; }
    static Wt from(const std::vector<I>& a) { Wt w; for (auto x : a) w.push_back(static_cast<long long>(x)); return w; }
};
inline char lab(int l) { return static_cast<char>('A' + l); }
inline pdaaal::op_t op(Op o) { switch (o) { case PUSH: return pdaaal::PUSH; case POP: return pdaaal::POP; case SWAP: return pdaaal::SWAP; default: return pdaaal::NOOP; } }

inline pdaaal::NFA<char> nfa(const ReP& r) {
    using N = pdaaal::NFA<char>;
    switch (r->k) {
        case Re::EmptyString: return N(true);
        case Re::Any: return N(std::unordered_set<char>{}, true);
        case Re::Empty: return N(false);
        case Re::Set: { std::unordered_set<char> s; for (int l : r->labels) s.insert(lab(l)); return N(std::move(s), r->neg); }
        case Re::Cat: { auto a = nfa(r->a); a.concat(nfa(r->b)); return a; }
        case Re::Or: { auto a = nfa(r->a); a.or_extend(nfa(r->b)); return a; }
        case Re::Star: { auto a = nfa(r->a); a.star_extend(); return a; }
        case Re::Plus: { auto a = nfa(r->a); a.plus_extend(); return a; }
        case Re::Opt: { auto a = nfa(r->a); a.question_extend(); return a; }
    }
    return N(false);
}
template <class WT> using pda_t = pdaaal::PDA<char, pdaaal::weight<WT>>;
template <class WT> void add_rules(pda_t<WT>& p, const Pds& d) {
    for (auto& r : d.rules) {
        std::vector<char> pre; for (int l : r.pre) pre.push_back(lab(l));
        char ol = r.lab >= 0 ? lab(r.lab) : 'A';
        if constexpr (std::is_void_v<WT>) p.add_rule(r.from, r.to, op(r.op), ol, r.wild, pre);
        else p.add_rule(r.from, r.to, op(r.op), ol, r.wild, pre, wconv<WT>::to(r.w));
    }
    // make sure every state exists
    for (int i = 0; i < d.n; ++i) p.insert_state(i);
}
template <class WT> pda_t<WT> pda(const Pds& d) {
    std::unordered_set<char> labels; for (int l = 0; l < d.L; ++l) labels.insert(lab(l));
    pda_t<WT> p(labels);
    add_rules<WT>(p, d);
    return p;
}
template <class WT, pdaaal::TraceInfoType tt = pdaaal::TraceInfoType::Single>
using pa_t = pdaaal::PAutomaton<char, pdaaal::weight<WT>, size_t, true, tt>;
template <class WT, pdaaal::TraceInfoType tt = pdaaal::TraceInfoType::Single>
pa_t<WT, tt> automaton(const pda_t<WT>& p, const gen::Lang& g, bool eps = false) {
    if (!g.automaton) {
        auto n = nfa(g.re); n.compile();
        return pa_t<WT, tt>(p, n, g.states);
    }
    std::vector<size_t> acc; for (int i = 0; i < g.pa.n; ++i) if (g.pa.acc[i]) acc.push_back(i);
    pa_t<WT, tt> a(p, acc, true);
    for (int i = g.pa.n; i < g.pa.N; ++i) a.add_state(false, g.pa.acc[i]);
    if (eps && !g.raw.empty()) { for (auto& [f, l, t] : g.raw) if (l < 0) a.add_epsilon_edge(f, t); else a.add_edge(f, t, l); }
    else for (auto& [f, l, t] : g.edges) a.add_edge(f, t, l);
    return a;
}
template <class WT, pdaaal::TraceInfoType tt = pdaaal::TraceInfoType::Single>
using product_t = pdaaal::PAutomatonProduct<pda_t<WT>, pa_t<WT, tt>, pdaaal::weight<WT>, tt>;
template <class WT, pdaaal::TraceInfoType tt = pdaaal::TraceInfoType::Single>
product_t<WT, tt> product(const pda_t<WT>& p, const gen::Lang& i, const gen::Lang& f) {
    return product_t<WT, tt>(p, automaton<WT, tt>(p, i), automaton<WT, tt>(p, f));
}
template <class Tr> std::vector<Config> read_trace(const Tr& t) {
    std::vector<Config> r;
    for (auto& s : t) { Config c{(int)s._pdastate, {}}; for (char ch : s._stack) c.st.push_back(ch - 'A'); r.push_back(c); }
    return r;
}
inline std::string show_trace(const std::vector<Config>& t) { std::string s; for (auto& c : t) s += " " + show(c); return s; }
// Checks that the trace is a run from the initial to the final set. Returns the optimal weight over rule choices per step.
inline Wt check_trace(const Pds& d, const RPa& ini, const RPa& fin, const std::vector<Config>& t, const char* who, bool maximize = false) {
    REQUIRE(!t.empty(), who << ": reachable, but no trace");
    REQUIRE(ini.accepts(t.front()), who << ": trace does not start in the initial set:" << show_trace(t));
    REQUIRE(fin.accepts(t.back()), who << ": trace does not end in the final set:" << show_trace(t));
    Wt tot;
    for (size_t i = 0; i + 1 < t.size(); ++i) {
        std::optional<Wt> best;
        for (auto& [c, w] : succ(d, t[i])) if (c == t[i + 1] && (!best || (maximize ? wcmp(w, *best) > 0 : wcmp(w, *best) < 0))) best = w;
        REQUIRE(best.has_value(), who << ": step " << i << " " << show(t[i]) << " -> " << show(t[i + 1]) << " is not a rule of the pda; trace:" << show_trace(t));
        tot = wadd(tot, *best);
    }
    return tot;
}
} // namespace adapt
