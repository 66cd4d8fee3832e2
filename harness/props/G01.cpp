// CEGAR: abstraction, search, reconstruction and refinement, against direct reachability of the concrete system.
// The factory and the reconstruction below are a user of the framework: concrete rules are explicit, configurations are (rule, header).
#include "../solve.hpp"
#include <pdaaal/cegar/CegarPdaFactory.h>
using namespace solve;
namespace {
using namespace pdaaal;
#ifndef PART
#define PART 0
#endif
#if PART == 0
using L = std::string;
L lb(int l) { return std::string(1 + l % 2, (char)('A' + l)); }
#else
using L = char;
L lb(int l) { return (char)('A' + l); }
#endif
struct CRule { int from, pre, to; Op op; int lab; };                       // pre < 0: any label
struct Concrete {
    Pds d; std::vector<size_t> ini, acc; std::vector<int> scls, lcls; bool fast; bool wild;
    std::vector<CRule> rules, guess; std::map<L, int> num; size_t dropped = 0, guesses = 0, deep = 0; // guess: rules the abstraction has although the system does not, until they are told to be wrong
    int rounds = 0, headers = 0, initials = 0;
    bool is(const std::vector<size_t>& v, size_t x) const { return std::find(v.begin(), v.end(), x) != v.end(); }
};
using W0 = pdaaal::weight<void>;
struct Reconstruction;
struct Factory : CegarPdaFactory<L, W0> {
    using parent = CegarPdaFactory<L, W0>; using label_t = L;
    Concrete& k; RefinementMapping<size_t> sm; std::vector<size_t> _i, _a;
    static std::unordered_set<L> labels(const Concrete& k) { std::unordered_set<L> s; for (int l = 0; l < k.d.L; ++l) s.insert(lb(l)); return s; }
    explicit Factory(Concrete& k_) : parent(labels(k_), std::function<int(const L&)>([&k_](const L& l) { return k_.lcls[k_.num.at(l)]; })), k(k_) {
        // States are told apart by whether they are initial or accepting, as the framework only refines on rules and headers.
        AbstractionMapping<size_t, size_t> m(std::function<size_t(const size_t&)>([this](const size_t& q) { return (size_t)k.scls[q] * 4 + k.is(k.ini, q) * 2 + k.is(k.acc, q); }));
        for (int q = 0; q < k.d.n; ++q) m.insert((size_t)q);
        sm = RefinementMapping<size_t>(std::move(m));
    }
    std::vector<size_t> ab(const std::vector<size_t>& v) { return sm.encode_many(v); }
    void build_pda() override {
        _i = ab(k.ini); _a = ab(k.acc); ++k.rounds;
        REQUIRE(k.rounds <= k.d.n + k.d.L + 2 + (int)k.guesses, "more refinements than there are states and labels");
        for (auto* rs : {&k.rules, &k.guess}) for (auto& r : *rs) {
            abstract_rule_t a; a._from = sm.exists(r.from).second; a._to = sm.exists(r.to).second; a._op = adapt::op(r.op);
            a._op_label = r.lab >= 0 ? (uint32_t)abstract_label(lb(r.lab)).second : 0;
            if (r.pre < 0) add_wildcard_rule(a); else { a._pre = (uint32_t)abstract_label(lb(r.pre)).second; add_rule(a); }
        }
    }
    const std::vector<size_t>& initial() override { return _i; }
    const std::vector<size_t>& accepting() override { return _a; }
    template <class R> void refine(R&& r) { if constexpr (std::is_same_v<std::remove_cvref_t<R>, std::variant<std::pair<Refinement<size_t>, Refinement<L>>, user_rule_t<W0>>>) { if (r.index() == 0) sm.refine(std::get<0>(r).first); else {
        auto& a = std::get<1>(r); auto lab = [&](int l, uint32_t x) { return l < 0 || abstract_label(lb(l)).second == x; }; size_t n = k.guess.size();
        std::erase_if(k.guess, [&](const CRule& g) { return sm.maps_to(g.from, a._from) && sm.maps_to(g.to, a._to) && adapt::op(g.op) == a._op && lab(g.pre, a._pre) && lab(g.lab, a._op_label); });
        REQUIRE(k.guess.size() < n, "the rule that was refused is no rule of the abstraction"); ++k.dropped; } } else ++k.headers; }
};
using Conf = std::pair<CRule, Header<L>>;
using CTrace = std::vector<Config>;
struct Reconstruction : CegarPdaReconstruction<L, size_t, const std::vector<Conf>&, CTrace, W0> {
    using parent = CegarPdaReconstruction<L, size_t, const std::vector<Conf>&, CTrace, W0>; using label_t = L; using concrete_trace_t = CTrace; using header_t = Header<L>; using refinement_t = parent::refinement_t; using abstract_rule_t = parent::abstract_rule_t;
    Factory& f; Concrete& k; std::deque<std::vector<Conf>> store;
    Reconstruction(Factory& f_, const product_t& in, const NFA<L>& i, const NFA<L>& fi) : parent(in, i, fi), f(f_), k(f_.k) {}
    bool match(const CRule& r, const abstract_rule_t& a) const { return f.sm.maps_to(r.from, a._from) && f.sm.maps_to(r.to, a._to) && adapt::op(r.op) == a._op && (r.pre < 0 || label_maps_to(lb(r.pre), a._pre)) && (r.lab < 0 || label_maps_to(lb(r.lab), a._op_label)); }
    // Taking several labels off a partly known stack: what is left, and the labels chosen for the unknown ones.
    void pops(const Header<L>& h, const std::vector<L>& post, size_t n, bool first, const L& pre) const {
        Header<L> x = h; std::vector<std::vector<L>> may; size_t all = n + first;
        for (size_t i = 0; i < all; ++i) { if (!x.concrete_part.empty()) x.concrete_part.pop_back(); else { if (!first || i) may.push_back(pre_labels(x)); --x.count_wildcards; } }
        x.concrete_part.insert(x.concrete_part.end(), post.begin(), post.end());
        std::pair<Header<L>, std::vector<L>> got;
        if (first) { auto o = update_header(h, pre, post, n); REQUIRE(o.has_value(), "a label that may be on top is refused"); got = *o; } else got = update_header_wildcard_pre(h, post, n);
        REQUIRE(got.first.count_wildcards == x.count_wildcards && got.first.concrete_part == x.concrete_part, "stack after taking " << all << " labels off");
        REQUIRE(got.first.size() == h.size() - all + post.size() && got.first.empty() == (h.size() == all && post.empty()) && got.first.is_concrete() == (x.count_wildcards == 0), "size of the stack");
        REQUIRE(got.second.size() == may.size(), "number of labels chosen"); for (size_t i = 0; i < may.size(); ++i) REQUIRE(std::find(may[i].begin(), may[i].end(), got.second[i]) != may[i].end(), "label chosen that cannot be there");
        if (may.size() && all > 1) ++k.deep;
    }
    void step(const abstract_rule_t& a, int from, const Header<L>& h, std::vector<Conf>& out) const {
        for (auto& r : k.rules) if (r.from == from && match(r, a)) {
            // the concrete labels on top of the stack that the rule can take
            std::vector<int> tops; if (r.pre >= 0) tops = {r.pre}; else for (auto& x : pre_labels(h)) if (label_maps_to(x, a._pre)) tops.push_back(k.num.at(x));
            if (r.pre < 0 && k.wild && (r.op == model::POP || r.op == model::SWAP || r.op == model::NOOP)) { // wildcard rule that need not look at the label
                if (tops.empty()) continue;
                if (r.op == model::NOOP) { auto [nh, pl] = update_header_wildcard_pre(h, {}, 0); out.push_back({r, nh}); continue; }
                if (!h.top_is_concrete()) { auto [nh, pl] = update_header_wildcard_pre(h, r.op == model::SWAP ? std::vector<L>{lb(r.lab)} : std::vector<L>{}, 1); REQUIRE(pl.size() == 1 && label_maps_to(pl[0], a._pre) , "label chosen for a wildcard"); auto al = pre_labels(h); REQUIRE(std::find(al.begin(), al.end(), pl[0]) != al.end(), "label chosen for a wildcard is not possible"); auto r2 = r; r2.pre = k.num.at(pl[0]); out.push_back({r2, nh}); continue; }
            }
            for (size_t n = 0; n <= std::min<size_t>(h.size(), 3); ++n) pops(h, r.lab >= 0 ? std::vector<L>{lb(r.lab)} : std::vector<L>{}, n, false, L{});
            for (int t : tops) {
                std::vector<L> post; switch (r.op) { case model::POP: break; case model::NOOP: post = {lb(t)}; break; case model::SWAP: post = {lb(r.lab)}; break; case model::PUSH: post = {lb(t), lb(r.lab)}; break; }
                auto pl = pre_labels(h); bool may = std::find(pl.begin(), pl.end(), lb(t)) != pl.end();
                auto nh = update_header(h, lb(t), post);
                REQUIRE(nh.has_value() == may, "the labels a header can show disagree with what can be taken off it");
                if (nh) { for (size_t n = 1; n < std::min<size_t>(h.size(), 4); ++n) pops(h, post, n, true, lb(t)); auto r2 = r; r2.pre = t; out.push_back({r2, nh->first}); }
            }
        }
    }
    const std::vector<Conf>& initial_concrete_rules(const abstract_rule_t& a) override { store.emplace_back(); for (auto q : k.ini) step(a, (int)q, initial_header(), store.back()); return store.back(); }
    const std::vector<Conf>& search_concrete_rules(const abstract_rule_t& a, const Conf& c) override { store.emplace_back(); step(a, c.first.to, c.second, store.back()); return store.back(); }
    refinement_t ref(const abstract_rule_t& a, const std::vector<std::pair<size_t, Header<L>>>& at) {
        if (std::none_of(k.rules.begin(), k.rules.end(), [&](auto& r) { return match(r, a); })) return refinement_t(a); // no rule of the system: refuse the abstract rule
        std::vector<std::pair<size_t, L>> X, Y; std::set<size_t> w;
        for (auto& [q, h] : at) if (f.sm.maps_to(q, a._from)) for (auto& x : pre_labels(h)) if (label_maps_to(x, a._pre)) X.emplace_back(q, x);
        for (auto& r : k.rules) if (match(r, a) && r.pre < 0) w.insert(r.from);
        for (auto& r : k.rules) if (match(r, a) && r.pre >= 0 && !w.count(r.from)) Y.emplace_back(r.from, lb(r.pre));
        REQUIRE(!X.empty(), "stuck, but in no configuration the rule could start in");
        REQUIRE(!Y.empty() || !w.empty(), "the abstract rule has no concrete rule");
        std::vector<size_t> ws(w.begin(), w.end());
        if (k.fast) return make_refinement<refinement_option_t::fast_refinement>(std::move(X), std::move(Y), a._from, a._pre, std::move(ws));
        return make_refinement<refinement_option_t::best_refinement>(std::move(X), std::move(Y), a._from, a._pre, std::move(ws));
    }
    refinement_t find_initial_refinement(const abstract_rule_t& a) override { ++k.initials; std::vector<std::pair<size_t, Header<L>>> at; for (auto q : k.ini) at.emplace_back(q, initial_header()); return ref(a, at); }
    refinement_t find_refinement(const abstract_rule_t& a, const std::vector<Conf>& cs) override { std::vector<std::pair<size_t, Header<L>>> at; for (auto& c : cs) at.emplace_back(c.first.to, c.second); return ref(a, at); }
    Header<L> get_header(const Conf& c) override { return c.second; }
    CTrace get_concrete_trace(std::vector<Conf>&& cs, std::vector<L>&& fin, size_t init_abs) override {
        std::vector<int> st; for (auto it = fin.rbegin(); it != fin.rend(); ++it) st.push_back(k.num.at(*it)); // top first
        CTrace t;
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
            t.push_back({it->first.to, st});
            switch (it->first.op) { case model::POP: st.insert(st.begin(), it->first.pre); break; case model::NOOP: break; case model::SWAP: REQUIRE(!st.empty(), "stack too short"); st[0] = it->first.pre; break; case model::PUSH: REQUIRE(!st.empty(), "stack too short"); st.erase(st.begin()); break; }
        }
        if (cs.empty()) { auto v = f.sm.get_concrete_values(init_abs); REQUIRE(!v.empty(), "initial abstract state " << init_abs << " stands for no state"); t.push_back({(int)v[0], st}); }
        else t.push_back({cs[0].first.from, st});
        std::reverse(t.begin(), t.end()); return t;
    }
};
NFA<L> nf(const ReP& r) {
    using N = NFA<L>;
    switch (r->k) {
        case Re::EmptyString: return N(true);
        case Re::Any: return N(std::unordered_set<L>{}, true);
        case Re::Empty: return N(false);
        case Re::Set: { std::unordered_set<L> s; for (int l : r->labels) s.insert(lb(l)); return N(std::move(s), r->neg); }
        case Re::Cat: { auto a = nf(r->a); a.concat(nf(r->b)); return a; }
        case Re::Or: { auto a = nf(r->a); a.or_extend(nf(r->b)); return a; }
        case Re::Star: { auto a = nf(r->a); a.star_extend(); return a; }
        case Re::Plus: { auto a = nf(r->a); a.plus_extend(); return a; }
        case Re::Opt: { auto a = nf(r->a); a.question_extend(); return a; }
    }
    return N(false);
}
// the word as a regular expression, sometimes with a symbol widened
ReP word(pbt::Src& s, int Ln, const std::vector<int>& w) { ReP r; for (int l : w) { ReP e = s.coin(1, 6) ? mk(Re::Any) : s.coin(1, 6) ? [&] { std::vector<int> v; for (int x = 0; x < Ln; ++x) if (x != l && s.coin(1, 2)) v.push_back(x); return mkset(v, true); }() : mkset({l}, false); r = r ? mk(Re::Cat, r, e) : e; } return r ? r : mk(Re::EmptyString); }
void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = false; g.max_states = 5; g.max_labels = 4;
    Case q;
    if (s.coin(3, 5)) {
        auto [d, IF] = gen::directed(s, g); q.d = d; q.I = IF.first; q.F = IF.second;
        // as states x word
        if (q.I.automaton) { auto x = gen::sample(s, q.I.pa); if (!x) throw pbt::Discard{}; q.I = gen::Lang{}; q.I.states = {(size_t)x->p}; q.I.re = word(s, d.L, x->st); }
        if (q.F.automaton) { auto x = gen::sample(s, q.F.pa); if (!x) throw pbt::Discard{}; q.F = gen::Lang{}; q.F.states = {(size_t)x->p}; q.F.re = word(s, d.L, x->st); }
        if (s.coin(1, 4)) { int e = s.range(1, 2); for (int i = 0; i < e; ++i) (s.coin(1, 2) ? q.I : q.F).states.push_back(s.draw(d.n)); }
        for (auto* l : {&q.I, &q.F}) { std::sort(l->states.begin(), l->states.end()); l->states.erase(std::unique(l->states.begin(), l->states.end()), l->states.end()); l->pa = mkpa(d.n, l->states, to_nfa(l->re, d.L)); }
    } else { q.d = gen::pds(s, g); q.I = gen::lang(s, q.d, 2, false); q.F = gen::lang(s, q.d, 2, false); }
    Concrete k; k.d = q.d; k.ini = q.I.states; k.acc = q.F.states; k.fast = s.coin(1, 2); k.wild = s.coin(1, 2);
    int sc = s.range(1, 3), lc = s.range(1, 3);
    for (int i = 0; i < q.d.n; ++i) k.scls.push_back((int)s.draw(sc));
    for (int l = 0; l < q.d.L; ++l) { k.lcls.push_back((int)s.draw(lc)); k.num[lb(l)] = l; }
    for (auto& r : q.d.rules) { if (r.wild) k.rules.push_back({r.from, -1, r.to, r.op, r.lab}); else for (int l : r.pre) k.rules.push_back({r.from, l, r.to, r.op, r.lab}); }
    if (s.coin(1, 2)) for (int i = 0; i < q.d.n; ++i) k.rules.push_back({i, -1, i, model::NOOP, -1});
    if (s.coin(1, 3)) { int n = s.range(1, 4); for (int i = 0; i < n; ++i) { CRule g{(int)s.draw(q.d.n), s.coin(1, 4) ? -1 : (int)s.draw(q.d.L), (int)s.draw(q.d.n), static_cast<Op>(s.draw(4)), -1}; if (g.op == model::SWAP || g.op == model::PUSH) g.lab = (int)s.draw(q.d.L); k.guess.push_back(g); } k.guesses = n; }
    c.note([&] { std::string o; for (auto& g : k.guess) o += "guess " + std::to_string(g.from) + " " + std::to_string(g.pre) + " -> " + std::to_string(g.to) + " op " + std::to_string((int)g.op) + " " + std::to_string(g.lab) + "\n"; return o; });
    c.note([&] { std::string o = show(q.d) + "initial: " + gen::show(q.I) + "\nfinal: " + gen::show(q.F) + "\nabstract states"; for (int x : k.scls) o += " " + std::to_string(x); o += " labels"; for (int x : k.lcls) o += " " + std::to_string(x); return o + (k.fast ? " fast" : " best") + (k.wild ? " wild" : ""); });
    bool want = PreStar(q.d, q.F.pa, BOOL).solve(q.I.pa).has_value();
    auto a = nf(q.I.re), b = nf(q.F.re); a.compile(); b.compile();
    int mode = (int)s.draw(3); const char* mn[] = {"post*", "pre*", "dual*"}; c.note([&] { return std::string(mn[mode]); });
    Pds full = q.d; for (int i = 0; i < q.d.n; ++i) full.rules.push_back({i, true, {}, i, model::NOOP, -1, {}});
    CEGAR<Factory, Reconstruction> solver; std::optional<CTrace> r;
    if (mode == 0) r = solver.cegar_solve<false, false>(Factory(k), a, b); else if (mode == 1) r = solver.cegar_solve<true, false>(Factory(k), a, b); else r = solver.cegar_solve<false, true>(Factory(k), a, b);
    REQUIRE(r.has_value() == want, mn[mode] << ": " << (want ? "reachable, but no trace is found" : "unreachable, but a trace is found") << " after " << k.rounds << " rounds" << (r ? show_trace(*r) : ""));
    if (r) check_trace(full, q.I.pa, q.F.pa, *r, mn[mode]);
    c.label(want ? "reachable" : "unreachable"); if (k.rounds > 1) { c.label("refined"); c.label(want ? "refined, reachable" : "refined, unreachable"); c.nontrivial(); } if (k.rounds > 3) c.label("refined at least three times"); if (k.headers) c.label("header refinement"); if (k.dropped) c.label("abstract rule refused"); if (k.deep) c.label("several unknown labels taken off"); if (k.initials) c.label("initial refinement"); if (r && r->size() > 2) c.label("trace of several steps"); c.label(mn[mode]);
}
}
PBT_MAIN(prop)
