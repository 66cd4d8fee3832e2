// Generators of model objects (regular languages, pushdown systems) from a choice source.
#pragma once
#include "pbt.hpp"
#include "model.hpp"

namespace gen {
using namespace model;
using pbt::Src;

inline std::vector<int> label_subset(Src& s, int L, bool nonempty) {
    std::vector<int> v;
    if (L == 0) return v;
    if (nonempty && s.coin(2, 3)) { v.push_back((int)s.draw(L)); return v; }
    for (int l = 0; l < L; ++l) if (s.coin(1, 2)) v.push_back(l);
    if (nonempty && v.empty()) v.push_back((int)s.draw(L));
    return v;
}
// Regular expression over labels 0..L-1. depth bounds the tree.
inline ReP regex(Src& s, int L, int depth, bool allow_eps = true) {
    if (depth <= 0 || s.coin(1, 4)) {
        switch (s.weighted({6, 2, 2, allow_eps ? 1 : 0})) {
            case 0: return mkset(label_subset(s, L, true), false);
            case 1: return mkset(label_subset(s, L, s.coin(3, 4)), true);
            case 2: return mk(Re::Any);
            default: return mk(Re::EmptyString);
        }
    }
    switch (s.weighted({5, 3, 2, 2, 2})) {
        case 0: { auto a = regex(s, L, depth - 1, allow_eps); return mk(Re::Cat, a, regex(s, L, depth - 1, allow_eps)); }
        case 1: { auto a = regex(s, L, depth - 1, allow_eps); return mk(Re::Or, a, regex(s, L, depth - 1, allow_eps)); }
        case 2: return mk(Re::Star, regex(s, L, depth - 1, allow_eps));
        case 3: return mk(Re::Plus, regex(s, L, depth - 1, allow_eps));
        default: return mk(Re::Opt, regex(s, L, depth - 1, allow_eps));
    }
}
struct WGen { int dim = 1; int lo = 0, hi = 5; bool varlen = false; };
inline Wt weight(Src& s, const WGen& g) {
    Wt w; int d = g.varlen ? s.range(0, g.dim) : g.dim;
    for (int i = 0; i < d; ++i) {
        // 0 is the simplest weight; small values most of the time, some ties
        int span = g.hi - g.lo;
        int x = (int)s.draw(span + 1);
        int v = x <= g.hi ? x : g.hi - x; // 0..hi then -1..lo
        w.push_back(v);
    }
    return w;
}
struct PdsGen { int max_states = 4, max_labels = 3, max_rules = 12; bool weighted = true; WGen w; int min_labels = 1; };
inline Pds pds(Src& s, const PdsGen& g) {
    bool big = s.coin(1, 6);   // some larger systems
    Pds d; d.n = s.range(1, g.max_states + (big ? 2 : 0)); d.L = s.range(g.min_labels, g.max_labels + (big ? 1 : 0));
    int m = s.range(0, std::min(g.max_rules + (big ? 10 : 0), 2 + s.size / 5));
    for (int i = 0; i < m; ++i) {
        Rule r; r.from = (int)s.draw(d.n); r.wild = s.coin(1, 8);
        if (!r.wild) r.pre = label_subset(s, d.L, true);
        r.to = (int)s.draw(d.n);
        r.op = std::vector<Op>{SWAP, PUSH, POP, NOOP}[s.weighted({3, 4, 4, 2})];
        r.lab = (r.op == PUSH || r.op == SWAP) ? (int)s.draw(d.L) : -1;
        if (g.weighted) r.w = weight(s, g.w);
        d.rules.push_back(r);
    }
    return d;
}
// A set of configurations: states x regular language, or an explicit automaton
struct Lang {
    bool automaton = false;               // explicit P-automaton instead of states x regex
    std::vector<size_t> states; ReP re;
    RPa pa;                               // reference automaton
    std::vector<std::tuple<int,int,int>> edges; // explicit: edges; extra states are n..N-1
    std::vector<std::tuple<int,int,int>> raw;   // explicit, with epsilon edges (label -1): what was drawn; edges, pa: the same set without them
};
// Adds epsilon edges to an explicit automaton (engines take them in the automaton they do not saturate).
inline void add_eps(Src& s, Lang& g) {
    if (!g.automaton || g.pa.N <= g.pa.n) return;
    g.raw = g.edges; int m = s.range(1, 3); std::vector<std::vector<int>> e(g.pa.N);
    for (int i = 0; i < m; ++i) { int f = (int)s.draw(g.pa.N), t = g.pa.n + (int)s.draw(g.pa.N - g.pa.n); e[f].push_back(t); std::tuple<int,int,int> x{f, -1, t}; if (std::find(g.raw.begin(), g.raw.end(), x) == g.raw.end()) g.raw.insert(g.raw.begin() + s.draw(g.raw.size() + 1), x); }
    auto tr = g.pa.tr; auto acc = g.pa.acc;
    for (int q = 0; q < g.pa.N; ++q) {
        std::set<int> cl{q}; std::vector<int> st{q}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int t : e[x]) if (cl.insert(t).second) st.push_back(t); }
        for (int x : cl) { if (acc[x]) g.pa.acc[q] = 1; for (auto& [f, l, t] : tr) if (f == x) g.pa.tr.insert({q, l, t}); }
    }
    g.edges.assign(g.pa.tr.begin(), g.pa.tr.end());
}
inline Lang lang(Src& s, const Pds& d, int depth, bool allow_explicit = true) {
    Lang g;
    g.automaton = allow_explicit && s.coin(1, 3);
    if (!g.automaton) {
        if (d.n > 0) { if (s.coin(1, 3)) { for (int i = 0; i < d.n; ++i) if (s.coin(1, 2)) g.states.push_back(i); } else g.states.push_back(s.draw(d.n)); }
        g.re = s.coin(1, 3) ? regex(s, d.L, 0) : regex(s, d.L, s.range(1, depth));
        g.pa = mkpa(d.n, g.states, to_nfa(g.re, d.L));
    } else {
        int extra = s.range(1, 4);
        g.pa.n = d.n; g.pa.N = d.n + extra; g.pa.L = d.L; g.pa.acc.assign(g.pa.N, 0);
        for (int i = 0; i < g.pa.N; ++i) g.pa.acc[i] = i < d.n ? s.coin(1, 8) : s.coin(1, 2);
        int m = s.range(1, 8);
        for (int i = 0; i < m; ++i) {
            int f = s.coin(1, 2) ? (int)s.draw(d.n) : (int)s.draw(g.pa.N), l = (int)s.draw(d.L), t = d.n + (int)s.draw(extra);
            if (g.pa.tr.insert({f, l, t}).second) g.edges.emplace_back(f, l, t);
        }
    }
    return g;
}
// A random member of the set, if the random walk finds one.
inline std::optional<Config> sample(Src& s, const RPa& a, int maxlen = 6) {
    if (a.n == 0) return std::nullopt;
    std::vector<int> cand; for (int i = 0; i < a.n; ++i) { auto it = a.tr.lower_bound({i, -1, -1}); if (a.acc[i] || (it != a.tr.end() && std::get<0>(*it) == i)) cand.push_back(i); }
    if (cand.empty()) return std::nullopt;
    int p = s.pick(cand), q = p; std::vector<int> w;
    std::optional<Config> res; if (a.acc[q]) res = Config{p, w};
    for (int i = 0; i < maxlen; ++i) {
        std::vector<std::pair<int,int>> out;
        for (auto it = a.tr.lower_bound({q, -1, -1}); it != a.tr.end() && std::get<0>(*it) == q; ++it) out.push_back({std::get<1>(*it), std::get<2>(*it)});
        if (out.empty()) break;
        auto [l, t] = s.pick(out); w.push_back(l); q = t;
        if (a.acc[q]) { res = Config{p, w}; if (s.coin(1, 3)) break; }
    }
    return res;
}
// The set holding just one configuration (plus, sometimes, everything below its top symbols).
inline Lang point(Src& s, const Pds& d, const Config& c) {
    Lang g; g.automaton = true; g.pa = single(d.n, d.L, c);
    if (c.st.empty()) { g.pa.N = d.n + 1; g.pa.acc.push_back(0); }
    else if (s.coin(1, 4)) { int last = g.pa.N - 1; for (int l = 0; l < d.L; ++l) g.pa.tr.insert({last, l, last}); }
    for (auto& e : g.pa.tr) g.edges.push_back(e);
    return g;
}
// A target set: independent of the initial set, or (often) built from a random run so that it is reachable by construction.
inline Lang target(Src& s, const Pds& d, const Lang& I, int depth) {
    if (!s.coin(1, 2)) return lang(s, d, depth);
    auto c = sample(s, I.pa);
    if (!c) return lang(s, d, depth);
    int steps = s.range(1, 14);
    for (int i = 0; i < steps; ++i) { auto n = succ(d, *c); if (n.empty()) break; c = s.pick(n).first; if (c->st.size() > 7) break; }
    return point(s, d, *c);
}
// Rules grown along a run: from a member of I, each step uses an existing rule or adds one that applies. The target is
// where the run ends, so it is reachable through several rules by construction.
inline std::pair<Pds, std::pair<Lang, Lang>> directed(Src& s, const PdsGen& g) {
    Pds d; d.n = s.range(1, g.max_states + 1); d.L = s.range(g.min_labels, g.max_labels);
    Lang I = lang(s, d, 2);
    auto c = sample(s, I.pa);
    auto rule = [&](int from, int top, bool pop = true) {
        Rule r; r.from = from; r.wild = s.coin(1, 10);
        if (!r.wild) { r.pre = {top}; if (s.coin(1, 5)) for (int l = 0; l < d.L; ++l) if (l != top && s.coin(1, 2)) r.pre.push_back(l); std::sort(r.pre.begin(), r.pre.end()); }
        r.to = (int)s.draw(d.n);
        r.op = std::vector<Op>{SWAP, PUSH, POP, NOOP}[s.weighted({3, 4, pop ? 4 : 0, 1})];
        r.lab = (r.op == PUSH || r.op == SWAP) ? (int)s.draw(d.L) : -1;
        if (g.weighted) r.w = weight(s, g.w);
        return r;
    };
    if (c) {
        int steps = s.range(1, 14);
        for (int i = 0; i < steps && !c->st.empty() && c->st.size() < 8; ++i) {
            auto n = succ(d, *c);
            if (n.empty() || (d.rules.size() < 12 && s.coin(4, 5))) { d.rules.push_back(rule(c->p, c->st[0], c->st.size() > 1 || i + 1 == steps)); Pds one = d; one.rules = {d.rules.back()}; n = succ(one, *c); }
            c = s.pick(n).first;
        }
    }
    int noise = s.range(0, 4);
    for (int i = 0; i < noise; ++i) { int f = (int)s.draw(d.n); d.rules.push_back(rule(f, (int)s.draw(d.L))); }
    if (!c) return {d, {I, lang(s, d, 2)}};
    if (s.coin(1, 4)) { // a larger target that contains the end of the run
        Lang F = point(s, d, *c); int m = s.range(1, 3);
        for (int i = 0; i < m; ++i) { int f = s.coin(1, 2) ? (int)s.draw(d.n) : (int)s.draw(F.pa.N), l = (int)s.draw(d.L), t = d.n + (int)s.draw(F.pa.N - d.n); if (F.pa.tr.insert({f, l, t}).second) F.edges.emplace_back(f, l, t); }
        return {d, {I, F}};
    }
    return {d, {I, point(s, d, *c)}};
}
// Many labels side by side: groups of rules that differ in the label they apply to (and in weight) only, and sets that allow most
// labels at each place, so that edges carry many labels whose best one is any of them.
inline std::pair<Pds, std::pair<Lang, Lang>> fan(Src& s, const PdsGen& g) {
    Pds d; d.n = s.range(1, 3); d.L = s.range(4, 7); int m = s.range(1, 4);
    for (int i = 0; i < m; ++i) {
        int f = (int)s.draw(d.n), t = (int)s.draw(d.n); Op o = std::vector<Op>{PUSH, SWAP, POP, NOOP}[s.weighted({5, 3, 3, 1})]; int lab = (int)s.draw(d.L); bool own = s.coin(1, 4);
        for (int l = 0; l < d.L; ++l) if (!s.coin(1, 6)) { Rule r; r.from = f; r.to = t; r.pre = {l}; r.op = o; r.lab = o == PUSH || o == SWAP ? (own ? (lab + l) % d.L : lab) : -1; if (g.weighted) r.w = weight(s, g.w); d.rules.push_back(r); }
    }
    auto leaf = [&] { return s.coin(1, 2) ? mk(Re::Any) : mkset(label_subset(s, d.L, false), s.coin(2, 3)); };
    auto set = [&] {
        Lang a; a.states.push_back(s.draw(d.n)); ReP re = leaf(); int k = s.weighted({3, 3, 2}); for (int i = 0; i < k; ++i) re = mk(Re::Cat, re, s.coin(1, 4) ? mk(Re::Star, leaf()) : leaf());
        a.re = re; a.pa = mkpa(d.n, a.states, to_nfa(a.re, d.L)); return a;
    };
    auto I = set(); auto F = set(); return {d, {I, F}};
}
inline std::string show(const Lang& g) {
    std::stringstream ss;
    if (!g.automaton) { ss << "states={"; for (auto p : g.states) ss << p << " "; ss << "} x " << model::show(g.re); }
    else { ss << "automaton accepting={"; for (int i = 0; i < g.pa.N; ++i) if (g.pa.acc[i]) ss << i << " "; ss << "}"; for (auto& [f, l, t] : g.edges) ss << " " << f << "-" << char('A' + l) << "->" << t; if (!g.raw.empty()) { ss << " (closure of"; for (auto& [f, l, t] : g.raw) ss << " " << f << "-" << (l < 0 ? std::string("eps") : std::string(1, char('A' + l))) << "->" << t; ss << ")"; } }
    return ss.str();
}
} // namespace gen
