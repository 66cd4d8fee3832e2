// Refinements: combining splits, splits of pairs of components, and per-label collections of them, against their definition.
#include "../pbt.hpp"
#include <string>
#include <pdaaal/cegar/Refinement.h>
using namespace pdaaal;
template <class T> struct Val;
template <> struct Val<int> { static int of(int i) { return i * 3 - 7; } };
template <> struct Val<size_t> { static size_t of(int i) { return (size_t)i; } };
template <> struct Val<std::string> { static std::string of(int i) { return std::string(1 + i % 3, (char)('a' + (i * 5) % 26)) + (i < 26 ? "" : std::to_string(i)); } };
template <class T> std::string sh(const T& x) { std::stringstream o; o << x; return o.str(); }
template <class T> std::string sh(const std::vector<T>& v) { std::string o = "{"; for (auto& x : v) o += " " + sh(x); return o + " }"; }
template <class T> std::string shp(const std::vector<std::vector<T>>& v) { std::string o; for (auto& x : v) o += sh(x) + " "; return o; }
// element -> part; checks that the parts are non-empty and pairwise disjoint
template <class T> std::map<T, size_t> parts(const std::vector<std::vector<T>>& p, const char* what) {
    std::map<T, size_t> m;
    for (size_t i = 0; i < p.size(); ++i) { REQUIRE(!p[i].empty(), what << ": empty part in " << shp(p)); for (auto& x : p[i]) REQUIRE(m.emplace(x, i).second, what << ": " << sh(x) << " is in two places: " << shp(p)); }
    return m;
}
// Two disjoint non-empty sets of the universe 0..u-1
static bool two(pbt::Src& s, int u, std::vector<int>& a, std::vector<int>& b) {
    a.clear(); b.clear(); int da = s.range(1, 4), db = s.range(1, 4);
    for (int i = 0; i < u; ++i) { int k = (int)s.draw(8); if (k < da) a.push_back(i); else if (k < da + db && k >= da) b.push_back(i); }
    if (s.coin(1, 3)) { std::reverse(a.begin(), a.end()); }                 // the constructor sorts
    if (s.coin(1, 3)) { std::rotate(b.begin(), b.begin() + b.size() / 2, b.end()); }
    return !a.empty() && !b.empty();
}
template <class T> std::vector<T> conv(const std::vector<int>& a) { std::vector<T> r; for (int x : a) r.push_back(Val<T>::of(x)); return r; }

// A collection of refinements of several abstract values, each combined from a sequence of two-way splits.
template <class T> void combine(pbt::Src& s, pbt::Ctx& c) {
    bool large = s.coin(1, 50); int u = s.range(2, large ? 90 : 14), ids = s.range(1, large ? 6 : 3), steps = s.range(1, large ? 24 : 7);
    HeaderRefinement<T> h; REQUIRE(h.empty(), "new collection is empty");
    std::map<size_t, std::vector<std::vector<std::vector<T>>>> must;        // per id: splits asked for so far
    std::map<size_t, std::vector<std::vector<T>>> last;
    int done = 0, grew = 0;
    for (int i = 0; i < steps; ++i) {
        std::vector<int> a, b; size_t id = s.draw(ids);
        if (!two(s, u, a, b)) continue;
        auto A = conv<T>(a), B = conv<T>(b);
        c.note([&] { return "split " + std::to_string(id) + ": " + sh(A) + " | " + sh(B); });
        must[id].push_back({A, B});
        Refinement<T> r(std::move(A), std::move(B), id);
        REQUIRE(r.abstract_id == id && !r.empty() && r.partitions().size() == 2, "a split has two parts");
        if (s.coin(1, 4)) { Refinement<T> z(id); REQUIRE(z.empty() && z.partitions().empty(), "a new refinement splits nothing"); auto want = r.partitions(); z.combine(std::move(r)); REQUIRE(z.partitions() == want && z.abstract_id == id, "combining nothing with a split is that split"); h.combine(std::move(z)); } else h.combine(std::move(r)); ++done;
        REQUIRE(!h.empty() && h.refinements().size() == must.size(), "one refinement per abstract value: " << h.refinements().size() << " for " << must.size());
        std::set<size_t> seen;
        for (auto& q : h.refinements()) {
            REQUIRE(seen.insert(q.abstract_id).second && must.count(q.abstract_id), "refinement of " << q.abstract_id);
            if (q.abstract_id != id && last.count(q.abstract_id)) REQUIRE(last[q.abstract_id] == q.partitions(), "a split of another value changed this one");
            auto m = parts(q.partitions(), "combined refinement"); std::set<T> all;
            for (auto& sp : must[q.abstract_id]) {
                for (auto& p : sp) for (auto& x : p) { all.insert(x); REQUIRE(m.count(x), "element " << sh(x) << " got lost: " << shp(q.partitions())); }
                for (auto& x : sp[0]) for (auto& y : sp[1]) REQUIRE(m.at(x) != m.at(y), sh(x) << " and " << sh(y) << " were split but are together: " << shp(q.partitions()));
            }
            REQUIRE(m.size() == all.size(), "elements no split mentioned: " << shp(q.partitions()));
            if (last.count(q.abstract_id)) { auto o = parts(last[q.abstract_id], "before"); for (auto& [x, i1] : o) for (auto& [y, i2] : o) if (i1 != i2) REQUIRE(m.at(x) != m.at(y), sh(x) << " and " << sh(y) << " were in different parts before"); if (q.partitions().size() > last[q.abstract_id].size()) ++grew; }
            last[q.abstract_id] = q.partitions();
        }
    }
    if (large) c.label("large"); c.label("combine"); if (grew) c.label("combine: number of parts grew"); if (done >= 2) c.nontrivial();
}
// Pairs of components: every good pair is told apart from every bad pair by one of the two components.
template <class A, class B> void pairs(pbt::Src& s, pbt::Ctx& c) {
    bool large = s.coin(1, 60); int ua = s.range(1, large ? 14 : 6), ub = s.range(1, large ? 14 : 6); std::vector<std::pair<A, B>> X, Y; std::vector<A> wild; std::set<int> wa;
    bool usew = s.coin(1, 3);
    if (usew) for (int i = 0; i < ua; ++i) if (s.coin(1, 4)) wa.insert(i);
    int dx = s.range(1, 5), dy = s.range(1, 5);
    for (int i = 0; i < ua; ++i) for (int j = 0; j < ub; ++j) { if (wa.count(i)) continue; int k = (int)s.draw(10); auto p = std::make_pair(Val<A>::of(i), Val<B>::of(j)); if (k < dx) X.push_back(p); else if (k < dx + dy) Y.push_back(p); }
    for (int i : wa) wild.push_back(Val<A>::of(i)); std::sort(wild.begin(), wild.end());
    if (X.empty() || (Y.empty() && wild.empty())) throw pbt::Discard{};
    auto mix = [&](auto& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.draw(i)]); if (s.coin(1, 5)) v.push_back(v[0]); }; // any order, with repetitions
    if (!X.empty()) mix(X); if (!Y.empty()) mix(Y);
    auto show = [&](auto& v) { std::string o; for (auto& [a, b] : v) o += " (" + sh(a) + "," + sh(b) + ")"; return o; };
    bool fast = s.coin(1, 3); size_t ia = s.draw(5), ib = s.draw(5);
    c.note([&] { return std::string(fast ? "fast" : "best") + " X:" + show(X) + " Y:" + show(Y) + " Y*:" + sh(wild); });
    auto x2 = X, y2 = Y; auto w2 = wild;
    auto go = [&] { if (fast) return make_refinement<refinement_option_t::fast_refinement>(std::move(x2), std::move(y2), ia, ib, std::move(w2)); if (wild.empty() && s.coin(1, 2)) return make_refinement<refinement_option_t::best_refinement>(std::move(x2), std::move(y2), ia, ib); return make_refinement<refinement_option_t::best_refinement>(std::move(x2), std::move(y2), ia, ib, std::move(w2)); };
    auto [ra, rb] = go();
    REQUIRE(ra.abstract_id == ia && rb.abstract_id == ib, "abstract values of the refinements");
    auto ma = parts(ra.partitions(), "first component"); auto mb = parts(rb.partitions(), "second component");
    std::set<A> as; std::set<B> bs; for (auto& [a, b] : X) { as.insert(a); bs.insert(b); } for (auto& [a, b] : Y) { as.insert(a); bs.insert(b); } for (auto& a : wild) as.insert(a);
    for (auto& [a, i] : ma) REQUIRE(as.count(a), "first component splits " << sh(a) << ", which is in no pair");
    for (auto& [b, i] : mb) REQUIRE(bs.count(b), "second component splits " << sh(b) << ", which is in no pair");
    auto apart = [](auto& m, auto& x, auto& y) { auto i = m.find(x), j = m.find(y); return i != m.end() && j != m.end() && i->second != j->second; };
    if (fast) { // progress: at least one good pair is told apart from one bad pair
        bool ok = false; for (auto& [a, b] : X) { for (auto& [a2, b2] : Y) ok |= apart(ma, a, a2) || apart(mb, b, b2); for (auto& a2 : wild) ok |= apart(ma, a, a2); }
        REQUIRE(ok, "the refinement separates nothing: " << shp(ra.partitions()) << "/ " << shp(rb.partitions()));
    } else {
        for (auto& [a, b] : X) {
            for (auto& [a2, b2] : Y) REQUIRE(apart(ma, a, a2) || apart(mb, b, b2), "(" << sh(a) << "," << sh(b) << ") and (" << sh(a2) << "," << sh(b2) << ") are not told apart: " << shp(ra.partitions()) << "/ " << shp(rb.partitions()));
            for (auto& a2 : wild) REQUIRE(apart(ma, a, a2), "(" << sh(a) << "," << sh(b) << ") and (" << sh(a2) << ",*) are not told apart: " << shp(ra.partitions()));
        }
        REQUIRE(ma.size() == as.size() && mb.size() == bs.size(), "every value that occurs is in a part");
    }
    c.label(fast ? "pairs: fast" : wild.empty() ? "pairs: best" : "pairs: best with wildcards");
    if (X.size() > 1 && Y.size() + wild.size() > 1) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    switch (s.weighted({3, 1, 1, 3, 1, 1})) {
        case 0: combine<int>(s, c); break; case 1: combine<size_t>(s, c); break; case 2: combine<std::string>(s, c); break;
        case 3: pairs<size_t, std::string>(s, c); break; case 4: pairs<int, int>(s, c); break; default: pairs<std::string, size_t>(s, c);
    }
}
PBT_MAIN(prop)
