// Regular-expression operations build exactly the language of the expression; copies and moves are values.
#include "../nfa_util.hpp"
using namespace nfau;
template <class T> struct B {
    pbt::Src& s; int copies = 0;
    N<T> leafset(const ReP& r) { std::unordered_set<T> u; for (int l : r->labels) u.insert(Lab<T>::of(l)); return N<T>(std::move(u), r->neg); }
    N<T> copy(N<T> n) {
        switch (s.weighted({8, 1, 1, 1, 1})) {
            case 1: { ++copies; N<T> c(n); n.star_extend(); return c; }                 // changing the source does not change the copy
            case 2: { ++copies; std::unordered_set<T> u{Lab<T>::of(0)}; N<T> c(std::move(u)); if (s.coin(1, 2)) c.plus_extend(); c = n; N<T> d(c); c.question_extend(); return d; } // assigning replaces
            case 3: { ++copies; auto& self = n; n = self; return n; }                    // self assignment
            case 4: { ++copies; N<T> c(std::move(n)); N<T> d(true); d = std::move(c); return d; }
            default: return n;
        }
    }
    N<T> build(const ReP& r) {
        switch (r->k) {
            case Re::EmptyString: return copy(N<T>(true));
            case Re::Any: return copy(N<T>(std::unordered_set<T>{}, true));
            case Re::Empty: return s.coin(1, 2) ? N<T>(false) : N<T>(std::unordered_set<T>{});
            case Re::Set: return copy(leafset(r));
            case Re::Cat: { auto a = build(r->a); auto b = build(r->b); a.concat(std::move(b)); return copy(std::move(a)); }
            case Re::Or: { auto a = build(r->a); auto b = build(r->b); a.or_extend(std::move(b)); return copy(std::move(a)); }
            case Re::Star: { auto a = build(r->a); a.star_extend(); return copy(std::move(a)); }
            case Re::Plus: { auto a = build(r->a); a.plus_extend(); return copy(std::move(a)); }
            case Re::Opt: { auto a = build(r->a); a.question_extend(); return copy(std::move(a)); }
        }
        return N<T>(false);
    }
};
static ReP with_empty(pbt::Src& s, ReP r) { // sometimes replace a leaf by the empty language
    if (!r->a) return s.coin(1, 12) ? mk(Re::Empty) : r;
    auto c = std::make_shared<Re>(*r); c->a = with_empty(s, r->a); if (r->b) c->b = with_empty(s, r->b); return c;
}
// Long chains: a few hundred operations applied one after the other, then words sampled from the reference and changed by one label.
template <class T> void chain(pbt::Src& s, pbt::Ctx& c, const char* nm) {
    int L = s.range(1, 3), k = s.range(10, 150); bool alt = s.coin(1, 3); auto r = gen::regex(s, L, 1); B<T> b{s}; auto n = b.build(r); std::string txt = show(r);
    for (int i = 0; i < k; ++i) {
        auto x = gen::regex(s, L, s.coin(1, 4) ? 1 : 0); auto m = b.build(x);
        int how = s.weighted({6, alt ? 3 : 0, 1, i < 40 ? 1 : 0});
        if (how == 0) { n.concat(std::move(m)); r = mk(Re::Cat, r, x); txt += " . " + show(x); }
        else if (how == 1) { n.or_extend(std::move(m)); r = mk(Re::Or, r, x); txt += " | " + show(x); }
        else if (how == 2) { m.concat(std::move(n)); n = std::move(m); r = mk(Re::Cat, x, r); txt = show(x) + " . (" + txt + ")"; }
        else switch (s.draw(3)) { case 0: n.question_extend(); r = mk(Re::Opt, r); txt = "(" + txt + ")?"; break; case 1: n.plus_extend(); r = mk(Re::Plus, r); txt = "(" + txt + ")+"; break; default: n.star_extend(); r = mk(Re::Star, r); txt = "(" + txt + ")*"; }
    }
    c.note([&] { return std::string("NFA<") + nm + "> for " + txt; });
    n.compile(); auto ref = to_nfa(r, L + 1); same_language<T>(n, ref, L + 1, L == 1 ? 6 : 4, "NFA");
    std::function<bool(const std::vector<int>&)> in = [&](const std::vector<int>& w) { std::set<int> st(ref.init.begin(), ref.init.end()); for (int l : w) st = ref.step(st, l); for (int q : st) if (ref.acc[q]) return true; return false; };
    int yes = 0;
    for (int t = 0; t < 6; ++t) { // a random walk through the reference that keeps the last accepted prefix
        std::set<int> st(ref.init.begin(), ref.init.end()); std::vector<int> w, best; bool have = false;
        for (int i = 0; i < 200; ++i) { bool a = false; for (int q : st) a |= ref.acc[q]; if (a) { best = w; have = true; if (s.coin(1, 12)) break; } std::vector<int> can; for (int l = 0; l <= L; ++l) if (!ref.step(st, l).empty()) can.push_back(l); if (can.empty()) break; int l = s.pick(can); w.push_back(l); st = ref.step(st, l); }
        std::vector<std::vector<int>> ask{w}; if (have) { ask.push_back(best); ++yes; if (!best.empty()) { auto y = best; y[s.draw(y.size())] = (int)s.draw(L + 1); ask.push_back(y); y = best; y.erase(y.begin() + s.draw(y.size())); ask.push_back(y); y = best; y.insert(y.begin() + s.draw(y.size() + 1), (int)s.draw(L + 1)); ask.push_back(y); } }
        for (auto& w : ask) { bool e = in(w); REQUIRE(accepts<T>(n, w) == e, "word " << wshow(w) << (e ? " is in the language but rejected" : " is not in the language but accepted")); }
    }
    c.label("long chain"); if (yes) c.nontrivial();
}
template <class T> void go(pbt::Src& s, pbt::Ctx& c, const char* nm) {
    if (s.coin(1, 60)) return chain<T>(s, c, nm);
    int L = s.range(1, 3);
    auto r = gen::regex(s, L, s.range(s.coin(1, 12) ? 0 : 2, 2 + s.size / 25));
    if (s.coin(1, 4)) r = with_empty(s, r);
    c.note([&] { return std::string("NFA<") + nm + "> for " + show(r) + " over " + std::to_string(L) + " labels plus one unused"; });
    B<T> b{s}; auto n = b.build(r);
    n.compile();
    if (s.coin(1, 4)) n.compile();
    auto ref = to_nfa(r, L + 1);
    REQUIRE(n.empty_accept() == ref.eps(), "empty word");
    same_language<T>(n, ref, L + 1, L == 1 ? 7 : L == 2 ? 6 : 5, "NFA");
    N<T> m(n); m.compile(); same_language<T>(m, ref, L + 1, 3, "copy of the compiled NFA");
    N<T> a(true); a = n; a.compile(); same_language<T>(a, ref, L + 1, 3, "assigned from the compiled NFA");
    if (r->a) c.nontrivial();
    c.label(!r->a ? "leaf" : r->k == Re::Cat || r->k == Re::Or ? "binary at the top" : "unary at the top");
    if (b.copies) c.label("with copies, assignments or moves on the way");
    if (ref.eps()) c.label("accepts the empty word");
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    switch (s.weighted({4, 1, 1})) { case 0: go<char>(s, c, "char"); break; case 1: go<size_t>(s, c, "size_t"); break; default: go<std::string>(s, c, "string"); }
}
PBT_MAIN(prop)
