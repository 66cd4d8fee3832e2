// Automaton paths: what was put on a path comes off it again, in order, over operation histories.
#include "../pbt.hpp"
#include <pdaaal/AutomatonPath.h>
#include <absl/hash/hash.h>
using namespace pdaaal;
constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
template <bool P> struct St; template <> struct St<false> { using t = size_t; static t g(pbt::Src& s) { return s.coin(1, 20) ? std::numeric_limits<size_t>::max() - 1 : s.draw(6); } };
template <> struct St<true> { using t = std::pair<size_t, size_t>; static t g(pbt::Src& s) { return {s.draw(5), s.draw(5)}; } };
template <bool P> struct M { typename St<P>::t end; std::vector<std::pair<uint32_t, typename St<P>::t>> e; }; // front edge last
template <bool P> void same(const AutomatonPath<P>& p, const M<P>& m) {
    using T = typename St<P>::t;
    REQUIRE(!p.is_null(), "not null"); REQUIRE(p.empty() == m.e.empty() && p.edges_size() == m.e.size(), "size");
    REQUIRE(p.front_state() == (m.e.empty() ? m.end : m.e.back().second), "front state");
    std::vector<uint32_t> st; for (size_t i = m.e.size(); i-- > 0;) st.push_back(m.e[i].first);
    REQUIRE(p.stack() == st, "stack");
    if (!m.e.empty()) { auto [f, l, t] = p.front_edge(); REQUIRE(f == m.e.back().second && l == m.e.back().first && t == (m.e.size() > 1 ? m.e[m.e.size() - 2].second : m.end), "front edge"); }
    auto [path, stack] = p.get_path_and_stack(); std::vector<T> wp; std::vector<uint32_t> ws;
    for (size_t i = m.e.size(); i-- > 0;) if (m.e[i].first != EPS) { wp.push_back(m.e[i].second); ws.push_back(m.e[i].first); }
    wp.push_back(m.end);
    REQUIRE(path == wp && stack == ws, "path and stack (epsilon edges left out)");
    REQUIRE(path.size() == stack.size() + 1, "one state more than labels");
}
template <bool P> AutomatonPath<P> build(const M<P>& m) { AutomatonPath<P> p(m.end); for (auto& [l, s] : m.e) p.emplace(s, l); return p; }
template <bool P> void go(pbt::Src& s, pbt::Ctx& c) {
    using T = typename St<P>::t;
    REQUIRE(AutomatonPath<P>().is_null() && AutomatonPath<P>().empty(), "null path");
    M<P> m{St<P>::g(s), {}}; AutomatonPath<P> p(m.end);
    bool large = s.coin(1, 30); int ops = s.range(0, large ? 400 : 4 + s.size / 4); bool eps = false;
    for (int i = 0; i < ops; ++i) {
        switch (s.weighted({6, 3, 1, 1, 1})) {
            case 0: { T f = St<P>::g(s); uint32_t l = s.coin(1, 20) ? EPS - 1 : s.draw(4); p.emplace(f, l); m.e.emplace_back(l, f); break; }
            case 1: if (!m.e.empty()) { p.pop(); m.e.pop_back(); } break;
            case 2: { T f = m.e.empty() ? m.end : m.e.back().second; p.emplace(f, EPS); m.e.emplace_back(EPS, f); same(p, m); eps = true; if (s.coin(2, 3)) { p.remove_epsilon(); m.e.pop_back(); } break; }
            case 3: { bool e = !m.e.empty() && m.e.back().first == EPS; auto q = p; q.remove_epsilon(); if (!e) REQUIRE(q == p, "nothing to remove"); else { auto n = m; n.e.pop_back(); same(q, n); } break; }
            default: { auto q = p; REQUIRE(q == p && !(q != p), "copy equal"); q.emplace(St<P>::g(s), 1); REQUIRE(q != p && !(q == p), "longer path differs"); same(p, m); break; }
        }
        same(p, m);
    }
    // from lists of states and labels
    std::vector<T> path; std::vector<uint32_t> st; int n = s.range(0, large ? 300 : 6); M<P> k;
    for (int i = 0; i <= n; ++i) path.push_back(St<P>::g(s)); for (int i = 0; i < n; ++i) st.push_back(s.draw(4));
    k.end = path.back(); for (int i = n; i-- > 0;) k.e.emplace_back(st[i], path[i]);
    AutomatonPath<P> q(path, st); same(q, k); REQUIRE(q == build<P>(k), "built from lists or edge by edge"); REQUIRE(absl::Hash<AutomatonPath<P>>{}(q) == absl::Hash<AutomatonPath<P>>{}(build<P>(k)), "equal paths hash alike");
    REQUIRE((q == p) == (k.end == m.end && k.e == m.e), "equality is equality of end and edges");
    if (!k.e.empty()) { auto k2 = k; size_t i = s.draw(k.e.size()); if (s.coin(1, 2)) k2.e[i].first ^= 1; else k2.e[i].second = St<P>::g(s); REQUIRE((build<P>(k2) == q) == (k2.e == k.e), "one edge changed"); }
    if constexpr (P) {
        auto [a, b] = p.split(); M<false> ma{m.end.first, {}}, mb{m.end.second, {}}; for (auto& [l, x] : m.e) { ma.e.emplace_back(l, x.first); mb.e.emplace_back(l, x.second); }
        same<false>(a, ma); same<false>(b, mb);
    }
    c.note([&] { std::stringstream o; o << (P ? "pair path" : "path") << " after " << ops << " operations, stack:"; for (auto l : p.stack()) o << " " << l; return o.str(); });
    c.label(P ? "paths of state pairs" : "paths of states"); if (large) c.label("long"); if (eps) c.label("with epsilon edges"); if (m.e.size() > 1) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) { if (s.coin(1, 2)) go<true>(s, c); else go<false>(s, c); }
PBT_MAIN(prop)
