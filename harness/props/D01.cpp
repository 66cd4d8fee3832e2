// Tuple sets and sorted-vector containers behave like standard ordered sets and maps, over operation histories.
#include "../pbt.hpp"
#include <pdaaal/utils/fut_set.h>
using namespace pdaaal; using fut::type;
template <class K> struct Key { static K of(int i) { return static_cast<K>(i); } };
template <> struct Key<std::string> { static std::string of(int i) { return std::string(i < 0 ? 4 : i % 3, 'k') + std::to_string(i); } };
template <class C> constexpr bool is_vec = false;
static pbt::Ctx* C; static bool large; static int span = 1500; static std::vector<int> used; // large: long histories; span: of the keys; used: keys so far
static int key(pbt::Src& s) { int k = large && !used.empty() && s.coin(1, 3) ? s.pick(used) : large ? s.coin(1, 20) ? s.coin(1, 2) ? std::numeric_limits<int>::min() + (int)s.draw(2) : std::numeric_limits<int>::max() - (int)s.draw(2) : (int)s.draw(span) - span / 5 : s.coin(1, 8) ? s.range(-3, 60) + 3 : (int)s.draw(6); if (large) used.push_back(k); C->note([&] { return "  key " + std::to_string(k); }); return k; }
static int opn(pbt::Src& s, pbt::Ctx& c, const std::vector<int>& w) { int o = s.weighted(w); c.note([&] { return " operation " + std::to_string(o); }); return o; }
// --- plain vector_map / vector_set
template <class K> void vmap(pbt::Src& s, pbt::Ctx& c, int ops) {
    fut::vector_map<K, int> m; std::map<K, int> r;
    auto same = [&](const fut::vector_map<K, int>& x) {
        REQUIRE(x.size() == r.size() && x.empty() == r.empty(), "size " << x.size() << " instead of " << r.size());
        auto it = r.begin(); for (auto& e : x) { REQUIRE(it != r.end() && e.first == it->first && e.second == it->second, "iteration differs"); ++it; }
        size_t i = 0; for (auto& e : r) { REQUIRE(x[i].first == e.first && x[i].second == e.second, "element " << i); ++i; }
    };
    for (int i = 0; i < ops; ++i) {
        K k = Key<K>::of(key(s)); int v = s.draw(9);
        switch (opn(s, c, {4, 3, 3, 2, 2, 1, 1, 1})) {
            case 0: { bool mv = s.coin(1, 2); K kk = k; auto [it, b] = mv ? m.emplace(std::move(kk), v) : m.emplace(k, v); auto [jt, rb] = r.emplace(k, v); REQUIRE(b == rb && it->first == k && it->second == jt->second, "emplace"); break; }
            case 1: { bool mv = s.coin(1, 2); K kk = k; auto [it, b] = mv ? m.insert_or_assign(std::move(kk), v) : m.insert_or_assign(k, v); auto [jt, rb] = r.insert_or_assign(k, v); REQUIRE(b == rb && it->first == k && it->second == v, "insert_or_assign"); break; }
            case 2: { bool mv = s.coin(1, 2); K kk = k; auto [it, b] = mv ? m.try_emplace(std::move(kk)) : m.try_emplace(k); auto [jt, rb] = r.try_emplace(k); REQUIRE(b == rb && it->second == jt->second, "try_emplace"); it->second += v; jt->second += v; break; }
            case 3: { REQUIRE(m.contains(k) == (r.count(k) > 0), "contains"); auto it = m.find(k); REQUIRE((it == m.end()) == (r.find(k) == r.end()), "find"); if (it != m.end()) REQUIRE(it->second == r[k], "found value"); const auto& cm = m; auto ct = cm.find(k); REQUIRE((ct == cm.end()) == (r.count(k) == 0), "const find"); if (ct != cm.end()) REQUIRE(ct->first == k && ct->second == r[k], "const found value"); break; }
            case 4: { auto lb = m.lower_bound(k); auto rl = r.lower_bound(k); REQUIRE((lb == m.cend()) == (rl == r.end()), "lower_bound end"); if (rl != r.end()) REQUIRE(lb->first == rl->first, "lower_bound"); break; }
            case 5: if (s.coin(1, large ? 60 : 4)) { m.clear(); r.clear(); } break;
            case 6: if (m.size()) { size_t n = large && s.coin(7, 8) ? m.size() - s.draw(std::min<size_t>(m.size(), 2) + 1) : s.draw(m.size() + 1); m.resize(n); while (r.size() > n) r.erase(std::prev(r.end())); } break;
            default: { std::unordered_map<K, int> u(r.begin(), r.end()); fut::vector_map<K, int> a(u); same(a); fut::vector_map<K, int> b(std::move(u)); same(b); auto cp = m; same(cp); break; }
        }
        if (!large || i % 16 == 15 || i + 1 == ops) same(m);
    }
    if (r.size() > 2) c.nontrivial();
}
template <class K> void vset(pbt::Src& s, pbt::Ctx& c, int ops) {
    fut::vector_set<K> m; std::set<K> r;
    auto same = [&](const fut::vector_set<K>& x) { REQUIRE(x.size() == r.size() && x.empty() == r.empty(), "size"); REQUIRE(std::equal(x.begin(), x.end(), r.begin(), r.end()), "iteration differs"); };
    for (int i = 0; i < ops; ++i) {
        K k = Key<K>::of(key(s));
        switch (opn(s, c, {5, 2, 2, 1, 1, 1})) {
            case 0: { auto [it, b] = m.emplace(k); REQUIRE(b == r.emplace(k).second && *it == k, "emplace"); break; }
            case 1: { REQUIRE(m.contains(k) == (r.count(k) > 0) && (m.find(k) != m.end()) == (r.count(k) > 0), "contains/find"); if (auto it = m.find(k); it != m.end()) REQUIRE(*it == k, "found element"); const auto& cm = m; auto ct = cm.find(k); REQUIRE((ct != cm.end()) == (r.count(k) > 0), "const find"); if (ct != cm.end()) REQUIRE(*ct == k, "const found element"); break; }
            case 2: { auto lb = m.lower_bound(k); auto rl = r.lower_bound(k); REQUIRE((lb == m.cend()) == (rl == r.end()) && (rl == r.end() || *lb == *rl), "lower_bound"); break; }
            case 3: if (s.coin(1, large ? 60 : 4)) { m.clear(); r.clear(); } break;
            case 4: { size_t n = large && s.coin(7, 8) ? m.size() - s.draw(std::min<size_t>(m.size(), 2) + 1) : s.draw(m.size() + 1); m.resize(n); while (r.size() > n) r.erase(std::prev(r.end())); break; }
            default: { std::unordered_set<K> u(r.begin(), r.end()); fut::vector_set<K> a(u); same(a); fut::vector_set<K> b(std::move(u)); same(b); }
        }
        if (!large || i % 16 == 15 || i + 1 == ops) same(m);
    }
    if (r.size() > 2) c.nontrivial();
}
// --- tuple sets: two keys (set), two keys -> value, three keys -> value, two keys -> pair of values
template <class K1, class K2, type A, type B> void set2(pbt::Src& s, pbt::Ctx& c, int ops) {
    fut::set<std::tuple<K1, K2>, A, B> m; std::map<K1, std::set<K2>> r; size_t n = 0;
    for (int i = 0; i < ops; ++i) {
        K1 a = Key<K1>::of(key(s)); K2 b = Key<K2>::of(key(s));
        switch (opn(s, c, {6, 2, 3, 1})) {
            case 0: { bool f = s.coin(1, 2); K1 aa = a; auto res = f ? m.emplace(std::move(aa), b) : m.emplace(a, b); REQUIRE(res.second == r[a].insert(b).second && *res.first == b, "emplace"); break; }
            case 1: { auto res = m.insert_or_assign(a, b); REQUIRE(res.second == r[a].insert(b).second, "insert_or_assign"); break; }
            case 2: { REQUIRE(m.contains(a, b) == (r.count(a) && r[a].count(b)), "contains"); auto it = m.find(a); REQUIRE((it == m.end()) == (r.count(a) == 0), "find"); if (it != m.end()) REQUIRE(it->second.size() == r[a].size(), "inner size"); break; }
            default: if (s.coin(1, large ? 60 : 4)) { m.clear(); r.clear(); }
        }
        REQUIRE(m.size() == r.size() && m.empty() == r.empty(), "size"); n = 0; if (large && i % 16 != 15 && i + 1 != ops) continue;
        std::map<K1, std::set<K2>> seen; for (auto& [a, in] : m) for (auto& b : in) REQUIRE(seen[a].insert(b).second, "an element twice");
        REQUIRE(seen == r, "iteration differs");
        if constexpr (A == type::vector) { const K1* last = nullptr; for (auto& e : m) { if (last) REQUIRE(*last < e.first, "keys in order"); last = &e.first; } }
    }
    if (r.size() > 1) c.nontrivial();
}
template <type A, type B> void map2(pbt::Src& s, pbt::Ctx& c, int ops) { // (int, int) -> int
    fut::set<std::tuple<int, int, int>, A, B> m; std::map<std::pair<int, int>, int> r;
    for (int i = 0; i < ops; ++i) {
        int a = large && s.coin(2, 3) ? (int)s.draw(4) : key(s), b = key(s), v = s.draw(9);
        switch (opn(s, c, {5, 3, 3, 2, 1})) {
            case 0: { auto res = m.emplace(a, b, v); auto rr = r.emplace(std::pair(a, b), v); REQUIRE(res.second == rr.second && res.first->second == rr.first->second && res.first->first == b, "emplace"); break; }
            case 1: { auto res = m.insert_or_assign(a, b, v); auto rr = r.insert_or_assign(std::pair(a, b), v); REQUIRE(res.second == rr.second && res.first->second == v, "insert_or_assign"); break; }
            case 2: { auto* p = m.get(a, b); auto it = r.find({a, b}); REQUIRE((p == nullptr) == (it == r.end()), "get"); if (p) { REQUIRE(*p == it->second, "value"); *p = v; it->second = v; } const auto& cm = m; auto* q = cm.get(a, b); REQUIRE((const int*)p == q, "const get"); break; }
            case 3: REQUIRE(m.contains(a, b) == (r.count({a, b}) > 0), "contains"); break;
            default: if (s.coin(1, large ? 60 : 4)) { m.clear(); r.clear(); }
        }
        if (large && i % 16 != 15 && i + 1 != ops) continue;
        std::map<std::pair<int, int>, int> seen; for (auto& [a, in] : m) for (auto& e : in) REQUIRE(seen.emplace(std::pair(a, e.first), e.second).second, "an element twice");
        REQUIRE(seen == r, "iteration differs");
    }
    auto cp = m; size_t n = 0; for (auto& [a, in] : cp) for (auto& e : in) { REQUIRE(r.at({a, e.first}) == e.second, "copy"); ++n; } REQUIRE(n == r.size(), "copy size");
    if (r.size() > 2) c.nontrivial();
}
template <type A, type B, type C> void map3(pbt::Src& s, pbt::Ctx& c, int ops) { // (int, string, int) -> int
    fut::set<std::tuple<int, std::string, int, int>, A, B, C> m; std::map<std::tuple<int, std::string, int>, int> r;
    for (int i = 0; i < ops; ++i) {
        int q = large ? 5 : 1, a = s.draw(4 * q), b = s.draw(4 * q), d = s.draw(5 * q), v = s.draw(9); std::string bs = Key<std::string>::of(b);
        switch (opn(s, c, {5, 3, 3, 2})) {
            case 0: { auto res = m.emplace(a, bs, d, v); auto rr = r.emplace(std::tuple(a, bs, d), v); REQUIRE(res.second == rr.second && res.first->second == rr.first->second, "emplace"); break; }
            case 1: { auto res = m.insert_or_assign(a, bs, d, v); auto rr = r.insert_or_assign(std::tuple(a, bs, d), v); REQUIRE(res.second == rr.second, "insert_or_assign"); break; }
            case 2: { auto* p = m.get(a, bs, d); auto it = r.find({a, bs, d}); REQUIRE((p == nullptr) == (it == r.end()), "get"); if (p) REQUIRE(*p == it->second, "value"); break; }
            default: REQUIRE(m.contains(a, bs, d) == (r.count({a, bs, d}) > 0), "contains");
        }
    }
    std::map<std::tuple<int, std::string, int>, int> seen; for (auto& [a, in] : m) for (auto& [b, in2] : in) for (auto& e : in2) seen.emplace(std::tuple(a, b, e.first), e.second);
    REQUIRE(seen == r, "iteration differs");
    if (r.size() > 2) c.nontrivial();
}
template <type A, type B> void mapt(pbt::Src& s, pbt::Ctx& c, int ops) { // (int, int) -> (int, int); and hash -> vector conversion of the inner map
    fut::set<std::tuple<int, int, int, int>, A, B> m; std::map<std::pair<int, int>, std::tuple<int, int>> r;
    for (int i = 0; i < ops; ++i) {
        int a = large && s.coin(2, 3) ? (int)s.draw(4) : key(s), b = key(s); std::tuple<int, int> v((int)s.draw(5), (int)s.draw(5));
        switch (opn(s, c, {4, 3, 2})) {
            case 0: { auto res = m.emplace(a, b, v); REQUIRE(res.second == r.emplace(std::pair(a, b), v).second, "emplace"); break; }
            case 1: { m.insert_or_assign(a, b, v); r.insert_or_assign(std::pair(a, b), v); break; }
            default: { auto* p = m.get(a, b); auto it = r.find({a, b}); REQUIRE((p == nullptr) == (it == r.end()) && (!p || *p == it->second), "get"); }
        }
    }
    size_t n = 0;
    for (auto& [a, in] : m) {
        for (auto& e : in) { REQUIRE(r.at({a, e.first}) == e.second, "iteration"); ++n; }
        if constexpr (B == type::hash) { fut::detail::fut_set<std::tuple<int, int, int>, type::vector> dummy; (void)dummy; fut::detail::fut_set<std::tuple<int, int, int>, type::vector> v(in); REQUIRE(v.size() == in.size(), "conversion size"); bool fst = true; int last = 0; for (auto& e : v) { REQUIRE(fst || e.first > last, "conversion is sorted"); last = e.first; fst = false; REQUIRE(r.at({a, e.first}) == e.second, "converted value"); REQUIRE(v.get(e.first) && *v.get(e.first) == e.second, "converted get"); } }
    }
    REQUIRE(n == r.size(), "iteration size"); if (r.size() > 2) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    constexpr auto H = type::hash, V = type::vector;
    C = &c; large = s.coin(1, 40); used.clear(); span = s.coin(1, 2) ? 1500 : 200; int ops = s.range(1, large ? 500 : 6 + s.size / 2); int k = s.draw(16);
    c.note([&] { return "container kind " + std::to_string(k) + ", " + std::to_string(ops) + " operations"; });
    switch (k) {
        case 0: vmap<int>(s, c, ops); break; case 1: vmap<std::string>(s, c, ops); break; case 2: vset<int>(s, c, ops); break; case 3: vset<std::string>(s, c, ops); break;
        case 4: set2<int, int, H, H>(s, c, ops); break; case 5: set2<int, std::string, H, V>(s, c, ops); break; case 6: set2<std::string, int, V, H>(s, c, ops); break; case 7: set2<int, int, V, V>(s, c, ops); break;
        case 8: map2<H, H>(s, c, ops); break; case 9: map2<H, V>(s, c, ops); break; case 10: map2<V, H>(s, c, ops); break; case 11: map2<V, V>(s, c, ops); break;
        case 12: map3<H, V, H>(s, c, ops); break; case 13: map3<V, H, V>(s, c, ops); break; case 14: mapt<H, H>(s, c, ops); break; default: mapt<V, V>(s, c, ops); break;
    }
    static const char* nm[] = {"vector_map", "vector_map", "vector_set", "vector_set", "set of pairs", "set of pairs", "set of pairs", "set of pairs", "pairs to value", "pairs to value", "pairs to value", "pairs to value", "triples to value", "triples to value", "pairs to tuple", "pairs to tuple"};
    c.label(nm[k]); if (large) c.label("large");
}
PBT_MAIN(prop)
