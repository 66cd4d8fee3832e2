// Abstraction and refinement mappings, and abstract labels of edges: histories against a plain map.
#include "../pbt.hpp"
#include <string>
#include <functional>
#include <unordered_set>
#include <pdaaal/cegar/AbstractionPDA.h>
#include <pdaaal/Weight.h>
using namespace pdaaal;
template <class T> struct Val;
template <> struct Val<size_t> { static size_t of(int i) { return (size_t)i * 300; } static std::string sh(size_t x) { return std::to_string(x); } };
template <> struct Val<std::string> { static std::string of(int i) { return std::string(i % 4, (char)('a' + i % 100)) + (i < 26 ? "" : std::to_string(i)); } static std::string sh(const std::string& x) { return "'" + x + "'"; } }; // lengths 0..3
template <class T> std::vector<T> vals(int u) { std::set<T> s; for (int i = 0; i < u; ++i) s.insert(Val<T>::of(i)); return {s.begin(), s.end()}; }
template <class T> std::string shs(const std::set<T>& s) { std::string o = "{"; for (auto& x : s) o += " " + Val<T>::sh(x); return o + " }"; }

template <class T, class Abs> void mapping(pbt::Src& s, pbt::Ctx& c) {
    bool large = s.coin(1, 30); auto all = vals<T>(s.range(1, large ? 100 : 14)); std::map<T, int> f; int cls = s.range(1, large ? 25 : 4);
    for (auto& x : all) f[x] = (int)s.draw(cls);
    auto absv = [](int k) { if constexpr (std::is_same_v<Abs, std::string>) return std::string(k, 'z'); else return (Abs)(k * 1000 + 1); };
    std::function<Abs(const T&)> fn = [&](const T& x) { return absv(f.at(x)); };
    auto fn2 = fn; AbstractionMapping<T, Abs> m(std::move(fn2));
    std::map<int, size_t> id; std::map<size_t, std::set<T>> back; std::set<T> in; // model
    int ops = s.range(1, large ? 120 : 20);
    auto fresh_id = [&](int k, std::pair<bool, size_t> r, const char* what) {
        auto it = id.find(k);
        REQUIRE(r.first == (it == id.end()), what << ": reported new=" << r.first);
        if (it == id.end()) { REQUIRE(r.second == id.size(), what << ": ids are consecutive, got " << r.second); id[k] = r.second; back[r.second]; }
        else REQUIRE(r.second == it->second, what << ": id " << r.second << " instead of " << it->second);
    };
    auto check = [&] {
        REQUIRE(m.size() == id.size(), "size " << m.size());
        for (auto& [k, i] : id) {
            REQUIRE(m.get_abstract_value(i) == absv(k), "abstract value of id " << i);
            auto v = m.get_concrete_values(absv(k)); std::set<T> got(v.begin(), v.end()); REQUIRE(got.size() == v.size() && got == back[i], "concrete values of class " << k << ": " << shs(got) << " instead of " << shs(back[i]));
            std::set<T> got2; auto r = m.get_concrete_values_range(absv(k)); for (auto x : r) got2.insert(x); REQUIRE(got2 == back[i], "range of concrete values of class " << k);
        }
        for (int k = 0; k < cls + 1; ++k) if (!id.count(k)) { REQUIRE(m.get_concrete_values(absv(k)).empty(), "values of an unknown class"); auto r = m.get_concrete_values_range(absv(k)); REQUIRE(!(r.begin() != r.end()), "range of an unknown class"); }
        for (auto& x : all) {
            REQUIRE(m.map(x) == absv(f[x]), "map");
            auto [e, i] = m.exists(x); REQUIRE(e == (in.count(x) > 0), "exists " << Val<T>::sh(x) << ": " << e); if (e) REQUIRE(i == id[f[x]], "id of " << Val<T>::sh(x));
            auto [e2, i2] = m.exists(x, true); REQUIRE(e2 == (id.count(f[x]) > 0), "class of " << Val<T>::sh(x) << " exists: " << e2); if (e2) REQUIRE(i2 == id[f[x]], "class id of " << Val<T>::sh(x));
        }
    };
    for (int o = 0; o < ops; ++o) {
        auto& x = s.pick(all);
        switch (s.weighted({6, 1, 1})) {
            case 0: { c.note([&] { return "insert " + Val<T>::sh(x) + " class " + std::to_string(f[x]); }); auto r = m.insert(x); if (in.count(x)) { REQUIRE(!r.first && r.second == id[f[x]], "inserting a value again"); } else { fresh_id(f[x], r, "insert"); in.insert(x); back[r.second].insert(x); } break; }
            case 1: c.note([&] { return "insert class of " + Val<T>::sh(x); }); fresh_id(f[x], m.insert(x, true), "insert without the value"); break;
            default: { int k = (int)s.draw(cls); c.note([&] { return "insert class " + std::to_string(k); }); fresh_id(k, m.insert_abstract(absv(k)), "insert abstract value"); }
        }
        check();
    }
    // Refinement: needs every class to have members.
    for (auto& x : all) if (id.count(f[x]) && !in.count(x) && back[id[f[x]]].empty()) { auto r = m.insert(x); in.insert(x); back[r.second].insert(x); }
    for (auto& [i, st] : back) if (st.empty()) { c.label("class without a possible value"); return; }
    RefinementMapping<T> rm(std::move(m)); int refined = 0;
    auto check2 = [&] {
        REQUIRE(rm.size() == back.size(), "size " << rm.size() << " instead of " << back.size());
        for (auto& [i, st] : back) { auto v = rm.get_concrete_values(i); std::set<T> got(v.begin(), v.end()); REQUIRE(got.size() == v.size() && got == st, "class " << i << " is " << shs(got) << " instead of " << shs(st)); std::set<T> got2; for (auto x : rm.get_concrete_values_range(i)) got2.insert(x); REQUIRE(got2 == st, "range of class " << i); for (auto& x : st) { auto [e, j] = rm.exists(x); REQUIRE(e && j == i, Val<T>::sh(x) << " is in class " << j << " instead of " << i); for (auto& [k, u] : back) REQUIRE(rm.maps_to(x, k) == (k == i), "maps_to"); } }
        for (auto& x : all) if (!in.count(x)) { REQUIRE(!rm.exists(x).first, "exists"); REQUIRE(!rm.maps_to(x, 0), "maps_to for an unknown value"); }
        REQUIRE(rm.get_concrete_values(back.size()).empty(), "class beyond the end");
        std::vector<T> q; std::set<size_t> want; for (auto& [i, st] : back) for (auto& x : st) if (s.coin(1, 3)) { q.push_back(x); want.insert(i); }
        auto e = rm.encode_many(q); REQUIRE(e == std::vector<size_t>(want.begin(), want.end()), "classes of a list of values");
    };
    check2();
    int refs = s.range(0, large ? 25 : 4);
    for (int k = 0; k < refs; ++k) {
        size_t i = s.draw(back.size()); std::vector<T> mem(back[i].begin(), back[i].end()); int p = s.range(1, 3); Refinement<T> r(i); std::vector<std::vector<T>> ps(p);
        bool partial = s.coin(1, 4); for (auto& x : mem) { if (partial && s.coin(1, 4)) continue; ps[s.draw(p)].push_back(x); }
        std::set<T> rest = back[i];
        for (auto& v : ps) if (!v.empty()) { r.partitions().push_back(v); }
        c.note([&] { std::string o = "refine class " + std::to_string(i) + ":"; for (auto& v : r.partitions()) o += " " + shs(std::set<T>(v.begin(), v.end())); return o; });
        auto before = back; size_t n = rm.size();
        if (s.coin(1, 2)) rm.refine(r); else { AbstractionPDA<T, weight<void>> pda(std::move(rm)); pda.refine(r); REQUIRE(pda.number_of_labels() == n + (r.partitions().size() > 1 ? r.partitions().size() - 1 : 0), "number of abstract labels"); rm = pda.move_label_map(); }
        // The statement of what a refinement does: classes other than i keep their values; class i is cut so that no two parts share a class, and values that share a class now shared one before.
        std::map<size_t, std::set<T>> now; for (auto& x : in) { auto [e, j] = rm.exists(x); REQUIRE(e && j < rm.size(), "value " << Val<T>::sh(x) << " lost"); now[j].insert(x); }
        for (size_t j = 0; j < rm.size(); ++j) REQUIRE(now.count(j), "class " << j << " is empty after refinement");
        for (auto& [j, st] : before) if (j != i) REQUIRE(now[j] == st, "class " << j << " changed though class " << i << " was refined");
        if (r.partitions().size() <= 1) REQUIRE(now == before, "a refinement with at most one part changes nothing");
        else { std::map<T, size_t> part; for (size_t a = 0; a < r.partitions().size(); ++a) for (auto& x : r.partitions()[a]) part[x] = a; for (auto& [x, a] : part) for (auto& [y, b] : part) REQUIRE((rm.exists(x).second == rm.exists(y).second) == (a == b), Val<T>::sh(x) << " and " << Val<T>::sh(y) << (a == b ? " are split" : " still share a class")); REQUIRE(rm.size() == before.size() + r.partitions().size() - 1, "one class per part"); ++refined; }
        back = now; check2();
    }
    c.label(refined ? "refined" : "mapping only"); if (ops > 2 && (refined || s.coin(1, 3))) c.nontrivial();
}
// The abstract labels an NFA edge stands for (non-negated: those some label of which is listed; negated: the listed set is the classes wholly excluded).
template <class T> void encode(pbt::Src& s, pbt::Ctx& c) {
    bool large = s.coin(1, 30); auto all = vals<T>(s.range(1, large ? 100 : 10)); int cls = s.range(1, large ? 60 : 5); std::map<T, int> f; for (auto& x : all) f[x] = (int)s.draw(cls);
    std::unordered_set<T> labels(all.begin(), all.end()); std::function<size_t(const T&)> fn = [&](const T& x) { return (size_t)f.at(x); };
    AbstractionPDA<T, weight<void>, fut::type::hash> b(labels, std::move(fn)); std::set<int> used; for (auto& x : all) used.insert(f[x]);
    AbstractionPDA<T, weight<void>> p(std::move(b));
    REQUIRE(p.number_of_labels() == used.size(), "number of abstract labels " << p.number_of_labels());
    std::map<size_t, std::set<T>> cl; for (auto& x : all) { auto [e, i] = p.abstract_label(x); REQUIRE(e, "label known"); cl[i].insert(x); for (auto& y : all) REQUIRE((p.abstract_label(y).second == i) == (f[x] == f[y]), "labels share an abstract label iff abstracted alike"); auto v = p.get_concrete_labels(i); REQUIRE(std::find(v.begin(), v.end(), x) != v.end() && p.maps_to(x, i), "concrete labels of an abstract label"); }
    std::vector<T> q; for (auto& x : all) if (s.coin(1, 2)) q.push_back(x); bool neg = s.coin(1, 2); std::set<T> qs(q.begin(), q.end());
    c.note([&] { return std::string(neg ? "not " : "") + shs(qs) + " over " + std::to_string(cl.size()) + " abstract labels"; });
    auto e = p.encode_labels(q, neg); std::set<uint32_t> got(e.begin(), e.end()); REQUIRE(got.size() == e.size() && std::is_sorted(e.begin(), e.end()), "sorted, without repetition");
    // An edge of the abstract automaton must be there for abstract label i iff some concrete label of i satisfies the concrete edge. A negated edge is built as everything but the encoded ones.
    for (auto& [i, st] : cl) {
        bool some = false; for (auto& x : st) some |= (qs.count(x) > 0) != neg;
        bool edge = (got.count((uint32_t)i) > 0) != neg;
        REQUIRE(edge == some, "abstract label " << i << (some ? " has a concrete label that matches, but is left out" : " has no concrete label that matches, but is included"));
    }
    c.label(neg ? "encode negated" : "encode"); if (cl.size() > 1 && cl.size() < all.size()) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    switch (s.weighted({3, 2, 2, 1, 1})) { case 0: mapping<size_t, size_t>(s, c); break; case 1: mapping<std::string, int>(s, c); break; case 2: mapping<std::string, std::string>(s, c); break; case 3: encode<std::string>(s, c); break; default: encode<size_t>(s, c); }
}
PBT_MAIN(prop)
