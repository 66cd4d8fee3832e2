// Sorted-vector disjointness, once-only priority queue, flag sets, list printing: against their plain definitions.
#include "../pbt.hpp"
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/flags.h>
#include <pdaaal/utils/vector_printer.h>
using namespace pdaaal;
static void disjoint(pbt::Src& s, pbt::Ctx& c) {
    bool large = s.coin(1, 25); int u = s.range(1, large ? 600 : 30); std::vector<int> a, b; int pa = s.range(0, 6), pb = s.range(0, 6), q = large && s.coin(2, 3) ? 60 : 8; if (large) c.label("long sequences"); // one much longer than the other, often
    for (int i = 0; i < u; ++i) { if (s.coin(pa, q)) { a.push_back(i); if (s.coin(1, 10)) a.push_back(i); } if (s.coin(pb, 8)) b.push_back(i); }
    if (s.coin(1, 2)) { std::vector<int> b2; for (int x : b) if (std::find(a.begin(), a.end(), x) == a.end()) b2.push_back(x); b = b2; if (s.coin(1, 2) && !a.empty()) { b.push_back(s.pick(a)); std::sort(b.begin(), b.end()); } }
    c.note([&] { std::stringstream o; o << "a:"; for (int x : a) o << " " << x; o << " b:"; for (int x : b) o << " " << x; return o.str(); });
    bool want = true; for (int x : a) for (int y : b) want &= x != y;
    REQUIRE(is_disjoint(a, b) == want && is_disjoint(b, a) == want, "is_disjoint");
    std::vector<std::pair<int, char>> pb2; for (int x : b) pb2.emplace_back(x, (char)('a' + x % 3));
    CompFirst<int, char> cf; REQUIRE(is_disjoint(a, pb2, cf) == want && is_disjoint(pb2, a, cf) == want, "is_disjoint by first component");
    std::vector<int> ra(a.rbegin(), a.rend()), rb(b.rbegin(), b.rend()); REQUIRE(is_disjoint(ra, rb, CompSwapArgs<int>{}) == want, "is_disjoint, descending");
    EqFirst<int, char> eq; REQUIRE(eq(std::make_pair(1, 'a'), std::make_pair(1, 'b')) && !eq(std::make_pair(1, 'a'), 2) && eq(2, std::make_pair(2, 'a')), "EqFirst");
    c.label(want ? "disjoint" : "overlapping"); if (a.size() > 1 && b.size() > 1) c.nontrivial();
}
template <class Comp, bool min> void pset(pbt::Src& s, pbt::Ctx& c) {
    priority_set<int, size_t, Comp> q; std::multimap<int, size_t> r; std::set<size_t> seen; int popped = 0, multi = 0; int floor_ = min ? 0 : 1000;
    auto clean = [&] { for (auto it = r.begin(); it != r.end();) it = seen.count(it->second) ? r.erase(it) : std::next(it); };
    bool large = s.coin(1, 30); int ops = s.range(1, large ? 300 : 10 + s.size / 2);
    for (int i = 0; i < ops; ++i) {
        REQUIRE(q.empty() == r.empty(), "empty() is " << q.empty());
        if (r.empty() || s.coin(3, 5)) {
            size_t e = s.draw(large ? 150 : 8); int w = s.draw(large ? 60 : 12); if (seen.count(e)) continue; // an element that came out is not offered again
            for (auto& x : r) multi += x.second == e;
            c.note([&] { return "put " + std::to_string(e) + " with " + std::to_string(w); }); if (int w2 = w; s.coin(1, 2)) q.emplace(std::move(w2), e); else q.emplace(w, e); r.emplace(w, e);
        } else {
            int best = min ? r.begin()->first : r.rbegin()->first; auto [w, e] = q.top(); c.note([&] { return "take " + std::to_string(e); });
            REQUIRE(w == best, "weight at the top is " << w << " instead of " << best); REQUIRE(!seen.count(e), "element " << e << " comes out twice"); REQUIRE(q.back() == e, "back is the top");
            auto rg = r.equal_range(w); REQUIRE(std::any_of(rg.first, rg.second, [&](auto& x) { return x.second == e; }), "an element that was never put in");
            if (s.coin(1, 2)) q.pop(); else q.pop_back(); seen.insert(e); clean(); ++popped;
        }
    }
    c.label(min ? "smallest first" : "largest first"); if (multi) c.label("element queued several times"); if (popped > 2) c.nontrivial();
}
template <size_t N> void flags(pbt::Src& s, pbt::Ctx& c) {
    using F = utils::flags<N>; using T = typename F::flag_t; size_t k = s.coin(1, 4) ? N : s.draw(N + 1); std::set<size_t> need; T mask = F::no_flags;
    auto bit = [](size_t i) { return i == 0 ? (unsigned __int128)0 : (unsigned __int128)1 << (i - 1); };
    REQUIRE(F::flag(k) == (T)bit(k), "flag " << k); REQUIRE(F::fill(k) == (T)(((unsigned __int128)1 << k) - 1), "fill " << k);
    int ops = s.range(0, 12);
    for (int i = 0; i < ops; ++i) { size_t j = 1 + s.draw(N); if (s.coin(2, 3)) { F::add(mask, F::flag(j)); need.insert(j); } else { F::remove(mask, F::flag(j)); need.erase(j); } for (size_t x = 1; x <= N; ++x) REQUIRE(F::contains(mask, F::flag(x)) == (need.count(x) > 0), "contains " << x); }
    c.note([&] { std::string o = "flags of " + std::to_string(N) + ":"; for (auto x : need) o += " " + std::to_string(x); return o; });
    auto chk = [&](const std::vector<T>& v) { std::vector<T> w; for (auto x : need) w.push_back(F::flag(x)); REQUIRE(v == w, "split into single flags"); for (T x : v) REQUIRE(F::is_single_flag(x), "single flag"); };
    chk(F::split_to_single_flags(mask)); REQUIRE(F::is_single_flag(mask) == (need.size() == 1), "is_single_flag");
    utils::flag_mask<N> m(mask); REQUIRE(m.has_missing_flags() == !need.empty(), "missing flags"); if (!need.empty()) { size_t x = *std::next(need.begin(), s.draw(need.size())); REQUIRE(m.needs_flag(F::flag(x)), "needs flag"); m.got_flag(F::flag(x)); need.erase(x); REQUIRE(!m.needs_flag(F::flag(x)), "got flag"); chk(m.get_missing_flags()); REQUIRE(m.has_missing_flags() == !need.empty(), "still missing"); }
    c.label("flags"); if (ops > 3) c.nontrivial();
}
static void printer(pbt::Src& s, pbt::Ctx& c) {
    std::vector<int> v(s.draw(6)); for (auto& x : v) x = s.draw(100); std::stringstream o; int k = s.draw(4); std::string st = "[", sep = ",", en = "]";
    switch (k) { case 0: o << vector_printer() << v; break; case 1: sep = "; "; o << vector_printer(sep) << v; break; case 2: st = "<"; en = ">"; o << vector_printer(st, en) << v; break; default: st = "("; sep = "|"; en = "))"; o << vector_printer(st, sep, en) << v; }
    std::string w = st; for (size_t i = 0; i < v.size(); ++i) w += (i ? sep : "") + std::to_string(v[i]); w += en;
    c.note([&] { return "printed " + o.str(); }); REQUIRE(o.str() == w, "printed " << o.str()); c.label("list printing"); if (v.size() > 1) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    switch (s.weighted({4, 2, 2, 1, 1, 1, 1})) { case 0: disjoint(s, c); break; case 1: pset<std::less<int>, false>(s, c); break; case 2: pset<CompSwapArgs<int>, true>(s, c); break; case 3: flags<5>(s, c); break; case 4: flags<8>(s, c); break; case 5: switch (s.draw(4)) { case 0: flags<33>(s, c); break; case 1: flags<32>(s, c); break; case 2: flags<16>(s, c); break; default: flags<64>(s, c); } break; default: printer(s, c); }
}
PBT_MAIN(prop)
