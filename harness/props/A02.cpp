// The product of two automata, kept up to date edge by edge, has an accepting state exactly when the two sets intersect,
// and its paths are accepting paths of both.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
using E = std::tuple<int, int, int>; // from, label (-1: epsilon), to
struct Au { int N; std::vector<char> acc; std::set<E> tr; };
static bool meet(int n, const Au& a, const Au& b, std::set<std::pair<int, int>>* all = nullptr) {
    std::set<std::pair<int, int>> here, &seen = all ? *all : here; std::vector<std::pair<int, int>> st; auto add = [&](int x, int y) { if (seen.insert({x, y}).second) st.push_back({x, y}); };
    for (int i = 0; i < n; ++i) add(i, i);
    while (!st.empty()) { auto [x, y] = st.back(); st.pop_back(); if (a.acc[x] && b.acc[y] && !all) return true;
        for (auto& [f, l, t] : a.tr) if (f == x) { if (l < 0) add(t, y); else for (auto& [f2, l2, t2] : b.tr) if (f2 == y && l2 == l) add(t, t2); }
        for (auto& [f, l, t] : b.tr) if (f == y && l < 0) add(x, t); }
    return false;
}
template <class WT> void go(pbt::Src& s, pbt::Ctx& c) {
    using W = pdaaal::weight<WT>; constexpr bool weighted = !std::is_void_v<WT>; using anno = pdaaal::internal::edge_annotation<W>; constexpr auto eps = std::numeric_limits<uint32_t>::max();
    bool large = s.coin(1, 25); int n = s.range(1, large ? 20 : 3), L = s.range(1, large ? 8 : 3); Pds d; d.n = n; d.L = L; auto p = pda<WT>(d);
    int mode = s.weighted({2, 2, 3}); // post*: edges join the initial automaton; pre*: the final one; dual: both
    Au r[2]; std::unique_ptr<pa_t<WT>> a[2];
    for (int k = 0; k < 2; ++k) {
        r[k].N = n + s.range(1, large ? 30 : 4); std::vector<size_t> acc; for (int q = 0; q < r[k].N; ++q) { r[k].acc.push_back(q < n ? s.coin(1, 12) : s.coin(1, 3)); if (q < n && r[k].acc[q]) acc.push_back(q); }
        if (std::count(r[k].acc.begin() + n, r[k].acc.end(), 1) == 0 && s.coin(7, 8)) r[k].acc[n + s.draw(r[k].N - n)] = 1;
        a[k] = std::make_unique<pa_t<WT>>(p, acc, true); for (int q = n; q < r[k].N; ++q) a[k]->add_state(false, r[k].acc[q]);
    }
    auto edge = [&](int k, bool e) { int f = s.coin(1, 2) ? s.draw(n) : s.draw(r[k].N); int l = e && (mode != 0 || k != 0 || f < n) && s.coin(1, 5) ? -1 : (int)s.draw(L); return E{f, l, n + (int)s.draw(r[k].N - n)}; };
    auto put = [&](pa_t<WT>& x, const E& e) { auto [f, l, t] = e; if (l < 0) x.add_epsilon_edge(f, t); else x.add_edge(f, t, l); };
    std::string txt; auto sh = [&](int k, const E& e) { auto [f, l, t] = e; txt += std::string(k ? " F:" : " I:") + std::to_string(f) + "-" + (l < 0 ? "eps" : std::string(1, lab(l))) + "->" + std::to_string(t); };
    for (int k = 0; k < 2; ++k) { int m = s.range(0, large ? 60 : 5); for (int i = 0; i < m; ++i) { auto e = edge(k, mode != 2 && k != mode); if (r[k].tr.insert(e).second) { put(*a[k], e); sh(k, e); } } }
    txt += " |";
    product_t<WT> P(p, std::move(*a[0]), std::move(*a[1])); if (mode == 1) P.enable_pre_star();
    bool found = mode == 2 ? P.template initialize_product<true, true>() : P.initialize_product();
    int before = found, steps = s.range(1, large ? 60 : 4 + s.size / 4), added = 0;
    std::vector<std::pair<int, E>> hist; Au h[2] = {r[0], r[1]}; for (int i = 0; i < steps; ++i) { int k = mode == 2 ? s.draw(2) : mode; auto e = edge(k, k == 0);
        if (s.coin(1, 2)) { // an edge that continues a run the two automata share so far
            std::set<std::pair<int, int>> pr; meet(n, h[0], h[1], &pr); std::vector<E> can;
            for (auto& [x, y] : pr) for (auto& [f, l, t] : h[1 - k].tr) if (f == (k ? x : y) && l >= 0) can.push_back({k ? y : x, l, t});
            if (!can.empty()) { auto [f, l, t] = s.pick(can); e = E{f, l, n + (int)s.draw(r[k].N - n)}; } }
        if (mode == 2) while (std::get<1>(e) < 0 && std::get<0>(e) >= n) e = E{std::get<0>(e) % n, -1, std::get<2>(e)}; h[k].tr.insert(e); hist.push_back({k, e}); }
    // the note before the calls, so that a crash shows it
    { std::string t2 = txt; std::swap(t2, txt); for (auto& [k, e] : hist) sh(k, e); std::swap(t2, txt); std::string ac; for (int k = 0; k < 2; ++k) { ac += k ? " F accepting" : "I accepting"; for (int q = 0; q < r[k].N; ++q) if (r[k].acc[q]) ac += " " + std::to_string(q); } c.note([&] { return "states " + std::to_string(n) + " " + ac + (mode == 0 ? " post*" : mode == 1 ? " pre*" : " dual") + t2; }); }
    REQUIRE(found == meet(n, r[0], r[1]), "before any addition the product reports " << found);
    for (auto& [k, e] : hist) {
        if (found) break;
        if (!r[k].tr.insert(e).second) continue;
        auto& x = k ? P.final_automaton() : P.initial_automaton(); put(x, e); ++added;
        auto [f, l, t] = e; uint32_t lb = l < 0 ? eps : l; auto tr = anno::make_default();
        found = mode == 2 ? (k ? P.add_final_edge(f, lb, t, tr) : P.add_initial_edge(f, lb, t, tr)) : P.add_edge_product(f, lb, t, tr);
        REQUIRE(found == meet(n, r[0], r[1]), "after addition " << added << " the product reports " << found);
    }
    auto path = P.template find_path<Trace_Type::Any, true>(); REQUIRE(path.is_null() == !found, "path through the product");
    if (found) {
        auto [fp, sp] = path.split(); if (mode == 1) std::swap(fp, sp);
        int k = 0;
        for (auto* q : {&fp, &sp}) { REQUIRE(q->front_state() < (size_t)n, "path starts in a control state"); auto cp = *q; size_t last = cp.front_state();
            while (!cp.empty()) { auto [f, l, t] = cp.front_edge(); REQUIRE((l == eps && f == t) || r[k].tr.count({(int)f, l == eps ? -1 : (int)l, (int)t}), "no edge " << f << "-" << l << "->" << t << " in automaton " << k); last = t; cp.pop(); }
            REQUIRE(r[k].acc[last], "path does not accept in automaton " << k); ++k; }
        REQUIRE(fp.front_state() == sp.front_state() && fp.stack() == sp.stack(), "both paths accept the same configuration");
    }
    c.label(mode == 0 ? "post*" : mode == 1 ? "pre*" : "dual"); c.label(before ? "met before" : found ? "met by an addition" : "never met"); if (weighted) c.label("weighted"); if (large) c.label("large");
    if (!before && added) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) { if (s.coin(1, 3)) go<uint32_t>(s, c); else go<void>(s, c); }
PBT_MAIN(prop)
