// Reference models, independent of PDAAAL's sources: regular languages, pushdown systems and naive (weighted) pre*.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace model {

// ---------------------------------------------------------------- regular languages
struct Re;
using ReP = std::shared_ptr<Re>;
struct Re {
    enum K { Empty, Set, Any, Cat, Or, Star, Plus, Opt, EmptyString } k; // Set: label set (possibly negated); EmptyString: no symbols
    std::vector<int> labels; bool neg = false;
    ReP a, b;
};
inline ReP mk(Re::K k, ReP a = nullptr, ReP b = nullptr) { auto r = std::make_shared<Re>(); r->k = k; r->a = a; r->b = b; return r; }
inline ReP mkset(std::vector<int> l, bool neg) { auto r = std::make_shared<Re>(); r->k = Re::Set; r->labels = l; r->neg = neg; return r; }

// epsilon-free reference NFA over labels 0..L-1 (from an epsilon NFA)
struct RNfa {
    int n = 0;
    std::vector<std::vector<std::pair<int, int>>> tr;  // tr[q] = (label, q')
    std::vector<char> acc;
    std::vector<int> init;                             // closed under epsilon
    int L = 0;
    int add() { tr.emplace_back(); acc.push_back(0); return n++; }
    std::set<int> step(const std::set<int>& s, int l) const {
        std::set<int> r;
        for (int q : s) for (auto& [ll, t] : tr[q]) if (ll == l) r.insert(t);
        return r;
    }
    bool accepts(const std::vector<int>& w) const {
        std::set<int> s(init.begin(), init.end());
        for (int l : w) s = step(s, l);
        for (int q : s) if (acc[q]) return true;
        return false;
    }
    bool eps() const { for (int q : init) if (acc[q]) return true; return false; }
};
namespace detail {
    struct E { int n = 0; std::vector<std::vector<std::pair<int,int>>> tr; int add() { tr.emplace_back(); return n++; } };
    inline std::pair<int,int> build(E& e, const ReP& r, int L) {
        int i = e.add(), f = e.add();
        switch (r->k) {
            case Re::Empty: break;
            case Re::EmptyString: e.tr[i].push_back({-1, f}); break;
            case Re::Any: for (int l = 0; l < L; ++l) e.tr[i].push_back({l, f}); break;
            case Re::Set:
                for (int l = 0; l < L; ++l) {
                    bool in = std::find(r->labels.begin(), r->labels.end(), l) != r->labels.end();
                    if (in != r->neg) e.tr[i].push_back({l, f});
                }
                break;
            case Re::Cat: { auto a = build(e, r->a, L), b = build(e, r->b, L); e.tr[i].push_back({-1, a.first}); e.tr[a.second].push_back({-1, b.first}); e.tr[b.second].push_back({-1, f}); break; }
            case Re::Or: { auto a = build(e, r->a, L), b = build(e, r->b, L); e.tr[i].push_back({-1, a.first}); e.tr[i].push_back({-1, b.first}); e.tr[a.second].push_back({-1, f}); e.tr[b.second].push_back({-1, f}); break; }
            case Re::Star: { auto a = build(e, r->a, L); e.tr[i].push_back({-1, a.first}); e.tr[i].push_back({-1, f}); e.tr[a.second].push_back({-1, a.first}); e.tr[a.second].push_back({-1, f}); break; }
            case Re::Plus: { auto a = build(e, r->a, L); e.tr[i].push_back({-1, a.first}); e.tr[a.second].push_back({-1, a.first}); e.tr[a.second].push_back({-1, f}); break; }
            case Re::Opt: { auto a = build(e, r->a, L); e.tr[i].push_back({-1, a.first}); e.tr[i].push_back({-1, f}); e.tr[a.second].push_back({-1, f}); break; }
        }
        return {i, f};
    }
}
inline RNfa to_nfa(const ReP& r, int L) {
    detail::E e; auto [i, f] = detail::build(e, r, L);
    std::vector<std::set<int>> cl(e.n);
    for (int q = 0; q < e.n; ++q) {
        std::vector<int> st{q}; cl[q].insert(q);
        while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& [l, t] : e.tr[x]) if (l < 0 && cl[q].insert(t).second) st.push_back(t); }
    }
    // states with outgoing labelled edges or f matter; keep only those
    std::vector<int> id(e.n, -1); RNfa n; n.L = L;
    for (int q = 0; q < e.n; ++q) { bool lab = q == f; for (auto& [l, t] : e.tr[q]) lab |= l >= 0; if (lab) id[q] = n.add(); }
    n.acc[id[f]] = 1;
    for (int q = 0; q < e.n; ++q) if (id[q] >= 0) {
        std::set<std::pair<int,int>> s;
        for (auto& [l, t] : e.tr[q]) if (l >= 0) for (int u : cl[t]) if (id[u] >= 0) s.insert({l, id[u]});
        n.tr[id[q]].assign(s.begin(), s.end());
    }
    for (int u : cl[i]) if (id[u] >= 0) n.init.push_back(id[u]);
    return n;
}
inline std::string show(const ReP& r, const std::vector<std::string>* names = nullptr) {
    auto nm = [&](int l) { return names ? (*names)[l] : std::string(1, char('A' + l)); };
    switch (r->k) {
        case Re::Empty: return "<none>";
        case Re::EmptyString: return "<eps>";
        case Re::Any: return ".";
        case Re::Set: { std::string s = r->neg ? "[^" : "["; for (size_t i = 0; i < r->labels.size(); ++i) s += (i ? "," : "") + nm(r->labels[i]); return s + "]"; }
        case Re::Cat: return "(" + show(r->a, names) + " " + show(r->b, names) + ")";
        case Re::Or: return "(" + show(r->a, names) + "|" + show(r->b, names) + ")";
        case Re::Star: return "(" + show(r->a, names) + ")*";
        case Re::Plus: return "(" + show(r->a, names) + ")+";
        case Re::Opt: return "(" + show(r->a, names) + ")?";
    }
    return "?";
}

// ---------------------------------------------------------------- weights: lexicographic integer tuples
using Wt = std::vector<long long>;
inline Wt wadd(const Wt& a, const Wt& b) { Wt r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] += b[i]; return r; }
inline int wcmp(const Wt& a, const Wt& b) { for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { long long x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return x < y ? -1 : 1; } return 0; }
inline std::string wshow(const Wt& w) { std::string s = "["; for (size_t i = 0; i < w.size(); ++i) s += (i ? "," : "") + std::to_string(w[i]); return s + "]"; }
struct Val { bool inf = false; Wt w; };          // inf: unbounded in the optimisation direction
// ---------------------------------------------------------------- pushdown systems
enum Op { PUSH, POP, SWAP, NOOP };
struct Rule { int from; bool wild; std::vector<int> pre; int to; Op op; int lab; Wt w; };
struct Pds { int n = 0, L = 0; std::vector<Rule> rules;
    bool has_pre(const Rule& r, int l) const { return r.wild || std::find(r.pre.begin(), r.pre.end(), l) != r.pre.end(); }
};
struct Config { int p; std::vector<int> st; bool operator==(const Config& o) const { return p == o.p && st == o.st; } bool operator<(const Config& o) const { return std::tie(p, st) < std::tie(o.p, o.st); } };
// all successors with weight
inline std::vector<std::pair<Config, Wt>> succ(const Pds& d, const Config& c) {
    std::vector<std::pair<Config, Wt>> res;
    if (c.st.empty()) return res;
    for (auto& r : d.rules) if (r.from == c.p && d.has_pre(r, c.st[0])) {
        Config n{r.to, c.st};
        switch (r.op) { case POP: n.st.erase(n.st.begin()); break; case SWAP: n.st[0] = r.lab; break; case NOOP: break; case PUSH: n.st.insert(n.st.begin(), r.lab); break; }
        res.push_back({n, r.w});
    }
    return res;
}
// Reference P-automaton: control states 0..n-1 come first; further states n..N-1. Accepts <p,w> iff w leads from p to an accepting state.
struct RPa {
    int n = 0, N = 0, L = 0;
    std::set<std::tuple<int,int,int>> tr; // from,label,to
    std::vector<char> acc;
    bool accepts(const Config& c) const {
        std::set<int> s{c.p};
        for (int l : c.st) { std::set<int> t; for (auto& [a, b, q] : tr) if (b == l && s.count(a)) t.insert(q); s = t; }
        for (int q : s) if (acc[q]) return true;
        return false;
    }
    bool empty_lang() const {
        std::set<int> s; std::vector<int> st; for (int i = 0; i < n; ++i) { s.insert(i); st.push_back(i); }
        while (!st.empty()) { int q = st.back(); st.pop_back(); if (acc[q]) return false; for (auto& [a, b, t] : tr) if (a == q && s.insert(t).second) st.push_back(t); }
        return true;
    }
};
inline RPa mkpa(int n, const std::vector<size_t>& states, const RNfa& nfa) {
    RPa a; a.n = n; a.N = n + nfa.n; a.L = nfa.L; a.acc.assign(a.N, 0);
    for (int q = 0; q < nfa.n; ++q) { a.acc[n + q] = nfa.acc[q]; for (auto& [l, t] : nfa.tr[q]) a.tr.insert({n + q, l, n + t}); }
    for (auto p : states) { for (int q : nfa.init) { if (nfa.acc[q]) a.acc[p] = 1; for (auto& [l, t] : nfa.tr[q]) a.tr.insert({(int)p, l, n + t}); } }
    return a;
}
inline RPa single(int n, int L, const Config& c) {
    RPa a; a.n = n; a.L = L; a.N = n + (int)c.st.size(); a.acc.assign(a.N, 0);
    int cur = c.p; for (size_t i = 0; i < c.st.size(); ++i) { a.tr.insert({cur, c.st[i], n + (int)i}); cur = n + (int)i; }
    a.acc[cur] = 1; return a;
}

enum Dir { BOOL, MIN, MAX };
// Weighted pre*: value of each (from,label,to): optimum over runs that consume exactly that symbol. Kleene iteration with
// pumping bound: a value still improving after |variables| rounds belongs to a pumpable derivation, so it is unbounded.
struct PreStar {
    const Pds& d; Dir dir; int n, N, L;
    std::vector<std::optional<Val>> v; // index ((from*L)+label)*N+to
    std::vector<char> acc;
    size_t ix(int f, int l, int t) const { return ((size_t)f * L + l) * N + t; }
    // is b better than a
    bool better(const Val& b, const Val& a) const { if (dir == BOOL) return false; if (a.inf) return false; if (b.inf) return true; int c = wcmp(b.w, a.w); return dir == MIN ? c < 0 : c > 0; }
    // Values beyond 2^40 only arise by pumping (rule weights and systems are small), so they stand for "unbounded".
    static Val add(const Val& a, const Val& b) { if (a.inf || b.inf) return Val{true, {}}; Val r{false, wadd(a.w, b.w)}; for (auto x : r.w) if (x > (1LL << 40) || x < -(1LL << 40)) return Val{true, {}}; return r; }
    PreStar(const Pds& d_, const RPa& fin, Dir dir_) : d(d_), dir(dir_), n(d_.n), N(fin.N), L(d_.L), v((size_t)fin.N * d_.L * fin.N), acc(fin.acc) {
        for (auto& [f, l, t] : fin.tr) v[ix(f, l, t)] = Val{};
        size_t vars = v.size();
        for (size_t round = 0;; ++round) {
            bool ch = false; bool toinf = round > vars;
            auto upd = [&](int f, int l, int t, const Val& nv) {
                auto& o = v[ix(f, l, t)];
                if (!o) { o = nv; ch = true; }
                else if (better(nv, *o)) { if (toinf) o = Val{true, {}}; else o = nv; ch = true; }
            };
            for (auto& r : d.rules) for (int l = 0; l < L; ++l) if (d.has_pre(r, l)) {
                Val rw{false, r.w};
                switch (r.op) {
                    case POP: upd(r.from, l, r.to, rw); break;
                    case SWAP: case NOOP: { int x = r.op == SWAP ? r.lab : l; for (int t = 0; t < N; ++t) if (auto& e = v[ix(r.to, x, t)]) upd(r.from, l, t, add(rw, *e)); break; }
                    case PUSH: for (int m = 0; m < N; ++m) if (auto e = v[ix(r.to, r.lab, m)]) for (int t = 0; t < N; ++t) if (auto e2 = v[ix(m, l, t)]) upd(r.from, l, t, add(rw, add(*e, *e2))); break;
                }
            }
            if (!ch) break;
        }
    }
    // Optimum over all configurations of `ini`
    std::optional<Val> solve(const RPa& ini) const {
        std::map<std::pair<int,int>, Val> dist; std::vector<std::pair<int,int>> order;
        for (int p = 0; p < n; ++p) { dist[{p, p}] = Val{}; }
        size_t limit = (size_t)ini.N * N + 2;
        for (size_t round = 0;; ++round) {
            bool ch = false; bool toinf = round > limit;
            auto cur = dist;
            for (auto& [pq, val] : cur) {
                auto [a, b] = pq;
                for (auto it = ini.tr.lower_bound({a, -1, -1}); it != ini.tr.end() && std::get<0>(*it) == a; ++it) {
                    auto [f, l, t] = *it;
                    for (int q = 0; q < N; ++q) if (auto& e = v[ix(b, l, q)]) {
                        Val nv = add(val, *e);
                        auto [jt, fresh] = dist.try_emplace({t, q}, nv);
                        if (fresh) ch = true; else if (better(nv, jt->second)) { jt->second = toinf ? Val{true, {}} : nv; ch = true; }
                    }
                }
            }
            if (!ch) break;
        }
        std::optional<Val> best;
        for (auto& [pq, val] : dist) if (ini.acc[pq.first] && acc[pq.second]) { if (!best || better(val, *best)) best = val; }
        return best;
    }
    bool accepts(const Config& c) const { return solve(single(n, L, c)).has_value(); }
};

inline std::string show(const Config& c) { std::string s = "<" + std::to_string(c.p) + ","; for (int l : c.st) s += char('A' + l); return s + ">"; }
inline std::string show(const Pds& d) {
    std::stringstream ss; ss << "pda states=" << d.n << " labels=" << d.L << "\n";
    const char* nm[] = {"push", "pop", "swap", "noop"};
    for (auto& r : d.rules) { ss << "  " << r.from << " --"; if (r.wild) ss << "*"; else for (int l : r.pre) ss << char('A' + l); ss << "--> " << r.to << " " << nm[r.op]; if (r.op == PUSH || r.op == SWAP) ss << " " << char('A' + r.lab); if (!r.w.empty()) ss << " w=" << wshow(r.w); ss << "\n"; }
    return ss.str();
}
} // namespace model
