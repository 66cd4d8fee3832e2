// The rule store: after any history of additions the PDA holds exactly the rules added, whichever way they were added.
#include "../pbt.hpp"
#include <pdaaal/PDA.h>
#ifndef PART
#define PART 0
#endif
using namespace pdaaal;
template <class T> struct Lb; template <> struct Lb<char> { static char of(int i) { return i < 4 ? "kAzb"[i] : (char)('!' + i); } }; template <> struct Lb<std::string> { static std::string of(int i) { static const char* n[] = {"lab", "A", "zz", "*"}; return i < 4 ? n[i] : "L" + std::to_string(i * 7919 % 1000); } }; template <> struct Lb<size_t> { static size_t of(int i) { return i < 4 ? i * 17 % 7 : (size_t)i * 1000003; } };
template <class W> struct Wv { static int of(int) { return 0; } }; template <> struct Wv<weight<int>> { static int of(int i) { return i - 2; } };
using R = std::tuple<size_t, int, size_t, int, int, int>; // from, pre, to, op, label, weight
static const op_t OPS[] = {SWAP, PUSH, POP, NOOP};
template <class L> int back(const L& l, int n) { for (int i = 0; i < n; ++i) if (Lb<L>::of(i) == l) return i; return -2; }
template <class P, class L> std::multiset<R> stored(const P& p, int n) { std::multiset<R> s; for (auto& r : p.all_rules()) { bool lab = r._op == PUSH || r._op == SWAP; int w = 0; if constexpr (P::has_weight) w = r._weight; s.insert({r._from, back<L>(r._pre, n), r._to, (int)r._op, lab ? back<L>(r._op_label, n) : -1, w}); } return s; }
template <class L, class W, fut::type C> void go(pbt::Src& s, pbt::Ctx& c) {
    constexpr bool w = W::is_weight; using P = PDA<L, W, C>;
    bool large = s.coin(1, 25); size_t ns = large ? 30 : 4; int n = s.range(1, large ? 30 : 4); std::unordered_set<L> all; bool incremental = s.coin(1, 3); if (!incremental) for (int i = 0; i < n; ++i) all.insert(Lb<L>::of(i));
    P p(all); std::set<int> known; if (!incremental) for (int i = 0; i < n; ++i) known.insert(i);
    if (incremental) for (int i = 0; i < n; ++i) { auto id = p.insert_label(Lb<L>::of(i)); REQUIRE(p.insert_label(Lb<L>::of(i)) == id, "same label, same id"); known.insert(i); }
    REQUIRE(p.number_of_labels() == (size_t)n, "number of labels"); for (int i = 0; i < n; ++i) { auto [ok, id] = p.exists_label(Lb<L>::of(i)); REQUIRE(ok && p.get_symbol(id) == Lb<L>::of(i), "label and id"); }
    std::set<R> r; size_t states = 0; int ops = s.range(0, large ? 120 : 4 + s.size / 4), merged = 0;
    auto idsort = [&](std::vector<int> v) { std::sort(v.begin(), v.end(), [&](int a, int b) { return p.exists_label(Lb<L>::of(a)).second < p.exists_label(Lb<L>::of(b)).second; }); return v; };
    for (int k = 0; k < ops; ++k) {
        size_t f = s.draw(ns), t = s.draw(ns); op_t op = OPS[s.draw(4)]; int l = s.draw(n), wi = w ? (int)s.draw(5) : 0; bool lab = op == PUSH || op == SWAP;
        std::vector<int> pre; bool wild = false; L ol = Lb<L>::of(l); typename std::conditional_t<w, weight<int>, weight<int>>::type wt = wi - 2; int wv = w ? wt : 0;
        int how = s.weighted({6, 6, 4, 4, 2, 2, C == fut::type::vector ? 1 : 0});
        if (how == 6) {
            if constexpr (C == fut::type::vector) { if (!states) continue; size_t q = s.draw(states); p.clear_state(q); c.note([&] { return "clear state " + std::to_string(q); }); c.label("state cleared");
                std::erase_if(r, [&](const R& x) { return std::get<0>(x) == q || std::get<2>(x) == q; });
                REQUIRE((stored<P, L>(p, n)) == std::multiset<R>(r.begin(), r.end()), "rules after clearing state " << q); REQUIRE(p.states()[q]._pre_states.empty(), "a cleared state has no predecessors"); }
            continue;
        }
        if (how == 5) { size_t q = s.draw(ns + 2); p.insert_state(q); states = std::max(states, q + 1); continue; }
        if (s.coin(1, 30)) { bool threw = false; L un{}; while (back<L>(un, n) != -2) ++reinterpret_cast<unsigned char&>(un); (void)un; if constexpr (!std::is_same_v<L, std::string>) { if (lab) { try { if constexpr (w) p.add_rule(f, t, op, un, Lb<L>::of(0), wt); else p.add_rule(f, t, op, un, Lb<L>::of(0)); } catch (const std::exception&) { threw = true; } REQUIRE(threw, "a rule pushing an unknown label is taken"); REQUIRE((stored<P, L>(p, n)) == std::multiset<R>(r.begin(), r.end()), "a rule that is refused leaves the others alone"); c.label("unknown label refused"); } } }
        switch (how) {
            case 0: { pre = {(int)s.draw(n)}; if constexpr (w) p.add_rule(f, t, op, ol, Lb<L>::of(pre[0]), wt); else p.add_rule(f, t, op, ol, Lb<L>::of(pre[0])); break; }
            case 1: { for (int i = 0; i < n; ++i) if (s.coin(1, 2)) pre.push_back(i); wild = s.coin(1, 5); if (wild && s.coin(1, 2)) pre.clear(); pre = idsort(pre); std::vector<L> pl; for (int x : pre) pl.push_back(Lb<L>::of(x)); if constexpr (w) p.add_rule(f, t, op, ol, wild, pl, wt); else p.add_rule(f, t, op, ol, wild, pl); break; }
            case 2: { pre = {(int)s.draw(n)}; if constexpr (w) { const typename P::rule_t rr(f, Lb<L>::of(pre[0]), t, op, ol, wt); p.add_rule(rr); } else { const typename P::rule_t rr(f, Lb<L>::of(pre[0]), t, op, ol); p.add_rule(rr); } break; }
            case 3: { wild = true; if constexpr (w) { const typename P::rule_t rr(f, Lb<L>::of(0), t, op, ol, wt); p.add_wildcard_rule(rr); } else { const typename P::rule_t rr(f, Lb<L>::of(0), t, op, ol); p.add_wildcard_rule(rr); } break; }
            default: { pre = {(int)s.draw(n)}; uint32_t lid = lab ? p.exists_label(ol).second : std::numeric_limits<uint32_t>::max(), pid = p.exists_label(Lb<L>::of(pre[0])).second; auto& ip = static_cast<internal::PDA<W, C>&>(p);
                       if constexpr (w) ip.add_rule(user_rule_t<W>(f, pid, t, op, lid, wt)); else ip.add_rule(user_rule_t<W>(f, pid, t, op, lid)); break; }
        }
        c.note([&] { std::stringstream o; o << "add " << f << " -> " << t << " op " << op << " label " << l << (w ? " weight " + std::to_string(wv) : "") << (wild ? " any" : "") << " pre"; for (int x : pre) o << " " << x; return o.str(); });
        states = std::max({states, f + 1, t + 1});
        if (wild) { pre.clear(); for (int i = 0; i < n; ++i) pre.push_back(i); }
        for (int x : pre) merged += !r.insert({f, x, t, (int)op, lab ? l : -1, wv}).second;
        if (large && k % 16 != 15 && k + 1 != ops) continue;
        auto got = stored<P, L>(p, n); REQUIRE(got == std::multiset<R>(r.begin(), r.end()), "stored rules differ after addition " << k << ": " << got.size() << " instead of " << r.size());
    }
    auto meta = [&](auto& p) {
        REQUIRE(p.states().size() == states, "number of states " << p.states().size() << " instead of " << states);
        for (size_t q = 0; q < ns + 3; ++q) { auto [ok, id] = p.exists_state(q); REQUIRE(ok == (q < states) && id == q, "exists_state"); }
        for (size_t t = 0; t < states; ++t) for (size_t f = 0; f < states; ++f) { bool need = false; for (auto& x : r) need |= std::get<0>(x) == f && std::get<2>(x) == t; if (need) REQUIRE(p.states()[t]._pre_states.contains(f), "predecessor " << f << " of " << t << " missing"); }
        bool neg = false; for (auto& x : r) neg |= std::get<5>(x) < 0;
        bool empty_neg = false; if constexpr (w) for (auto& st : p.states()) for (auto& [rule, labels] : st._rules) empty_neg |= rule._weight < 0;
        if constexpr (w) { auto less = [](int a, int b) { return a < b; }; bool h = p.has_negative_weight(less); REQUIRE(h == (neg || empty_neg), "negative weights"); }
    };
    meta(p);
    if (s.coin(1, 2) || C == fut::type::hash) { // the builder's PDA becomes the solver's PDA
        if constexpr (C == fut::type::hash) {
            PDA<L, W, fut::type::vector> v(std::move(p)); REQUIRE((stored<decltype(v), L>(v, n)) == std::multiset<R>(r.begin(), r.end()), "rules after conversion"); REQUIRE(v.number_of_labels() == (size_t)n, "labels after conversion"); meta(v);
            for (auto& st : v.states()) { bool first = true; const typename internal::PDA<W>::rule_t* last = nullptr; for (auto& e : st._rules) { if (last) REQUIRE(*last < e.first, "rules in order"); last = &e.first; } }
            c.label("converted from the builder's container");
        }
    }
    if (large) c.label("large"); if (merged) c.label("same rule added several times"); if (r.size() > 2) c.nontrivial();
}
static void labels(pbt::Src& s, pbt::Ctx& c) {
    internal::labels_t l; bool large = s.coin(1, 25); size_t n = s.range(1, large ? 200 : 6); std::set<uint32_t> r; bool wild = false; int ops = s.range(1, 8);
    auto sub = [&] { std::vector<uint32_t> v; int k = s.draw(9); for (uint32_t i = 0; i < n; ++i) if (s.coin(k, 8)) v.push_back(i); return v; };
    for (int i = 0; i < ops; ++i) {
        switch (s.weighted({5, 3, 2, 1})) {
            case 0: { auto v = sub(); bool w = s.coin(1, 8); l.merge(w, v); if (!wild) { if (w) { wild = true; r.clear(); } else r.insert(v.begin(), v.end()); } break; }
            case 1: { auto v = sub(); bool res = l.intersect(v, n); if (v.size() < n) { if (wild) { r = std::set<uint32_t>(v.begin(), v.end()); wild = false; } else { std::set<uint32_t> k; for (auto x : v) if (r.count(x)) k.insert(x); r = k; } } REQUIRE(res == (wild || !r.empty()), "intersect reports whether anything is left"); break; }
            case 2: { auto v = sub(); std::set<uint32_t> u(v.begin(), v.end()); bool res = l.noop_pre_filter(u); std::set<uint32_t> k; if (wild) k = u; else for (auto x : r) if (u.count(x)) k.insert(x); bool ch = wild || k != r; wild = false; r = k; REQUIRE(res == ch, "filter reports change"); break; }
            default: l.clear(); r.clear(); wild = false;
        }
        for (uint32_t x = 0; x < n; ++x) REQUIRE(l.contains(x) == (wild || r.count(x)), "contains " << x);
        REQUIRE(l.wildcard() == wild && l.empty() == (!wild && r.empty()), "wildcard/empty"); if (!wild) REQUIRE(std::vector<uint32_t>(r.begin(), r.end()) == l.labels(), "label list");
    }
    c.note([&] { return "label set after " + std::to_string(ops) + " operations"; }); c.label("label sets"); if (r.size() > 1) c.nontrivial();
}
// Rules as values: equality is equality of all parts, the order is a strict total order on rules.
template <class W> void rules(pbt::Src& s, pbt::Ctx& c) {
    constexpr bool w = W::is_weight; using U = user_rule_t<W>; using I = internal::pda_rule_t<W>; int same = 0;
    auto key = [&] { return R{s.draw(2), (int)s.draw(2), s.draw(2), (int)s.draw(4), (int)s.draw(2), w ? (int)s.draw(3) : 0}; };
    std::vector<R> ks; for (int i = 0; i < 3; ++i) { if (i && s.coin(2, 3)) { R k = ks[s.draw(ks.size())]; R o = key(); switch (s.draw(7)) { case 0: std::get<0>(k) = std::get<0>(o); break; case 1: std::get<1>(k) = std::get<1>(o); break; case 2: std::get<2>(k) = std::get<2>(o); break; case 3: std::get<3>(k) = std::get<3>(o); break; case 4: std::get<4>(k) = std::get<4>(o); break; default: std::get<5>(k) = std::get<5>(o); } ks.push_back(k); } else ks.push_back(key()); }
    auto user = [&](const R& k) { auto [f, pre, t, op, l, wt] = k; if constexpr (w) return U(f, pre, t, OPS[op], l, wt); else return U(f, pre, t, OPS[op], l); };
    auto impl = [&](const R& k) { return user(k).to_impl_rule(); }; auto ik = [](const R& k) { return std::make_tuple(std::get<2>(k), std::get<3>(k), std::get<4>(k), std::get<5>(k)); };
    c.note([&] { std::stringstream o; for (auto& [f, pre, t, op, l, wt] : ks) o << f << " --" << pre << "--> " << t << " op " << op << " label " << l << " weight " << wt << "\n"; return o.str(); });
    for (auto& a : ks) for (auto& b : ks) {
        U x = user(a), y = user(b); REQUIRE((x == y) == (a == b), "equality of rules"); REQUIRE((x != y) == (a != b), "inequality of rules"); same += &a != &b && a == b;
        I i = impl(a), j = impl(b); bool e = ik(a) == ik(b); REQUIRE((i == j) == e && (i != j) != e, "equality of stored rules"); REQUIRE((int)(i < j) + (int)(j < i) == (e ? 0 : 1), "stored rules are totally ordered");
        for (auto& d : ks) { I k = impl(d); if (i < j && j < k) REQUIRE(i < k, "order of stored rules is transitive"); }
        auto [f, pre, t, op, l, wt] = a; bool lab = OPS[op] == PUSH || OPS[op] == SWAP; U z(f, pre, i); REQUIRE((size_t)z._from == f && (uint32_t)z._pre == (uint32_t)pre && (size_t)z._to == t && z._op == OPS[op] && (uint32_t)z._op_label == (lab ? (uint32_t)l : std::numeric_limits<uint32_t>::max()), "rule rebuilt from a stored rule"); if constexpr (w) REQUIRE(z._weight == wt, "weight of rebuilt rule");
    }
    c.label("rules as values"); if (same || ks[0] != ks[1]) c.nontrivial();
}
// Named states: ids in order of first mention, and back.
template <class W, fut::type C> void named(pbt::Src& s, pbt::Ctx& c) {
    using P = PDA<std::string, W, C, std::string, false>; std::unordered_set<std::string> lb{"a", "b"}; P p(lb); std::vector<std::string> ids; int ops = s.range(1, 10); std::set<std::pair<size_t, size_t>> rl;
    auto nm = [](size_t i) { static const char* n[] = {"q", "Q", "", "q1", "1", "a b", "\xc3\xa6"}; return std::string(n[i]); };
    for (int k = 0; k < ops; ++k) {
        auto st = [&] { auto n = nm(s.draw(7)); auto it = std::find(ids.begin(), ids.end(), n); size_t want = it - ids.begin(); auto got = p.insert_state(n); REQUIRE(got == want, "state " << n << " gets number " << got << " instead of " << want); if (it == ids.end()) ids.push_back(n); return got; };
        size_t f = st(); if (s.coin(1, 2)) { size_t t = st(); p.add_rule(f, t, PUSH, std::string("a"), std::string("b")); rl.insert({f, t}); }
        for (size_t i = 0; i < 7; ++i) { auto it = std::find(ids.begin(), ids.end(), nm(i)); auto [ok, id] = p.exists_state(nm(i)); REQUIRE(ok == (it != ids.end()) && (!ok || id == (size_t)(it - ids.begin())), "state " << nm(i) << " found: " << ok << " number " << id); }
    }
    auto look = [&](auto& p) { REQUIRE(p.states().size() == ids.size(), "number of states " << p.states().size()); for (size_t i = 0; i < ids.size(); ++i) REQUIRE(p.get_state(i) == ids[i], "name of state " << i); std::set<std::pair<size_t, size_t>> g; for (auto& r : p.all_rules()) g.insert({r._from, r._to}); REQUIRE(g == rl, "rules between named states"); };
    look(p); if constexpr (C == fut::type::hash) { PDA<std::string, W, fut::type::vector, std::string, false> v(std::move(p)); look(v); }
    c.note([&] { return "named states, " + std::to_string(ops) + " operations"; }); c.label("named states"); if (ids.size() > 2) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    constexpr auto H = fut::type::hash, V = fut::type::vector;
    switch (s.weighted({2, 1, 2, 1, 1, 1, 2, 1, 1, 1})) {
        case 0: go<char, weight<void>, V>(s, c); break; case 1: go<std::string, weight<void>, H>(s, c); break; case 2: go<char, weight<int>, H>(s, c); break; case 3: go<std::string, weight<int>, V>(s, c); break;
        case 4: go<size_t, weight<void>, V>(s, c); break; case 5: go<size_t, weight<int>, H>(s, c); break; case 6: labels(s, c); break;
        case 7: if (s.coin(1, 2)) rules<weight<void>>(s, c); else rules<weight<int>>(s, c); break; case 8: named<weight<void>, V>(s, c); break; default: named<weight<int>, H>(s, c);
    }
}
PBT_MAIN(prop)
