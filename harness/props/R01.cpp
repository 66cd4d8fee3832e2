// Reduction of a PDA keeps reachability of the target state and the best weight of reaching it, and invents no behaviour.
#include "../adapt.hpp"
#include <pdaaal/internal/Reducer.h>
using namespace adapt;
using R = std::tuple<int, int, int, int, int, long long>; // from, pre, to, op, label, weight
// Optimal weight of reaching the target state when the initial state's rules start the run on an empty stack.
static std::optional<Val> best(const Pds& d, int ini, int term) {
    RPa I; I.n = d.n; I.L = d.L; I.N = d.n + d.L + 1; I.acc.assign(I.N, 0); // state n+l: after one symbol
    Pds e = d; int src = e.n++;      // extra start state: swaps a start symbol for what an initial rule pushes
    // control states must come first: rebuild numbering with src as a control state
    RPa J; J.n = e.n; J.L = d.L; J.N = e.n + 1; J.acc.assign(J.N, 0); J.acc[e.n] = 1; J.tr.insert({src, 0, e.n});
    for (auto& r : d.rules) if (r.from == ini && (r.wild || !r.pre.empty())) e.rules.push_back(Rule{src, false, {0}, r.to, SWAP, r.lab, r.w});
    RPa F; F.n = e.n; F.L = d.L; F.N = e.n + 1; F.acc.assign(F.N, 0); F.acc[term] = 1; F.acc[e.n] = 1;
    for (int l = 0; l < d.L; ++l) { F.tr.insert({term, l, e.n}); F.tr.insert({e.n, l, e.n}); }
    return PreStar(e, F, MIN).solve(J);
}
template <class P> std::set<R> rules_of(const P& p) { std::set<R> s; for (auto& r : p.all_rules()) { bool lab = r._op == pdaaal::PUSH || r._op == pdaaal::SWAP; s.insert({(int)r._from, r._pre - 'A', (int)r._to, (int)r._op, lab ? r._op_label - 'A' : -1, (long long)r._weight}); } return s; }
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.max_states = 6; g.max_labels = 4; g.max_rules = 16; g.w.hi = 4;
    bool large = s.coin(1, 25); Pds d; d.n = s.range(2, large ? 24 : 6); d.L = s.range(1, large ? 10 : 4);
    int ini, term; if (s.coin(2, 3)) { term = 0; ini = 1 + s.draw(d.n - 1); } else { term = s.draw(d.n); ini = (term + 1 + s.draw(d.n - 1)) % d.n; }
    auto rule = [&](int from) {
        Rule r; r.from = from; r.wild = s.coin(1, 6); if (!r.wild) r.pre = gen::label_subset(s, d.L, !s.coin(1, 12)); r.to = (int)s.draw(d.n);
        r.op = from == ini ? PUSH : std::vector<Op>{SWAP, PUSH, POP, NOOP}[s.weighted({3, 3, 4, 2})]; r.lab = (r.op == PUSH || r.op == SWAP) ? (int)s.draw(d.L) : -1; r.w = gen::weight(s, g.w); return r;
    };
    bool directed = s.coin(1, 2); int runs = 0;
    if (directed && d.n > 2) { // rules along runs that reach the target, each for the label it needs; then a few more
        std::vector<int> inner; for (int q = 0; q < d.n; ++q) if (q != ini && q != term) inner.push_back(q);
        runs = s.range(1, 2);
        for (int k = 0; k < runs; ++k) {
            Config x{s.pick(inner), {(int)s.draw(d.L)}}; d.rules.push_back(Rule{ini, false, {(int)s.draw(d.L)}, x.p, PUSH, x.st[0], gen::weight(s, g.w)}); int len = s.range(1, large ? 60 : 16);
            for (int i = 0; i < len && !x.st.empty(); ++i) {
                bool last = i + 1 == len; std::vector<Config> can; if (!last) for (auto& y : succ(d, x)) if (y.first.p != term && y.first.p != ini) can.push_back(y.first);
                if (!can.empty() && s.coin(1, 2)) { x = s.pick(can); continue; }
                Rule r; r.from = x.p; r.wild = false; r.pre = {x.st[0]}; r.to = last ? term : s.pick(inner); r.op = std::vector<Op>{SWAP, PUSH, POP, NOOP}[s.weighted({3, x.st.size() < 6 ? 4 : 1, x.st.size() > 1 || last ? 4 : 0, 1})]; r.lab = (r.op == PUSH || r.op == SWAP) ? (int)s.draw(d.L) : -1; r.w = gen::weight(s, g.w); d.rules.push_back(r);
                if (r.op == POP) x.st.erase(x.st.begin()); else if (r.op == PUSH) x.st.insert(x.st.begin(), r.lab); else if (r.op == SWAP) x.st[0] = r.lab;
                x.p = r.to;
            }
        }
    }
    int m0 = runs ? 0 : s.range(1, large ? 8 : 3), m = s.range(0, runs ? large ? 30 : 4 : large ? 90 : 4 + s.size / 6); if (runs) c.label("grown along runs");
    for (int i = 0; i < m0; ++i) { auto r = rule(ini); if (r.to == term && !s.coin(1, 10)) r.to = ini; if (r.to == ini && s.coin(3, 4)) for (int q = 0; q < d.n; ++q) if (q != ini && q != term) r.to = q; d.rules.push_back(r); }
    for (int i = 0; i < m; ++i) d.rules.push_back(rule((int)s.draw(d.n)));
    int agg = s.weighted({1, 2, 4, 2, 4});
    c.note([&] { return show(d) + "initial state " + std::to_string(ini) + ", target state " + std::to_string(term) + ", aggressivity " + std::to_string(agg); });
    auto p = pda<uint32_t>(d); auto before = rules_of(p);
    auto b0 = best(d, ini, term);
    auto [n0, n1] = pdaaal::internal::Reducer::reduce(p, agg, (size_t)ini, (size_t)term);
    auto after = rules_of(p);
    Pds e = d; e.rules.clear();
    for (auto& [f, pre, t, op, lab, w] : after) { Op o = op == pdaaal::PUSH ? PUSH : op == pdaaal::POP ? POP : op == pdaaal::SWAP ? SWAP : NOOP; e.rules.push_back(Rule{f, false, {pre}, t, o, lab, {w}}); }
    REQUIRE(std::includes(before.begin(), before.end(), after.begin(), after.end()), "the reduced PDA has a rule the PDA did not have");
    REQUIRE(n1 <= n0, "reported size grew from " << n0 << " to " << n1);
    if (agg == 0) REQUIRE(after == before && n0 == n1, "aggressivity 0 changes nothing");
    auto b1 = best(e, ini, term);
    REQUIRE(b0.has_value() == b1.has_value(), "target reachable: " << b0.has_value() << " before and " << b1.has_value() << " after the reduction\n" << show(e));
    if (b0) REQUIRE(wcmp(b0->w, b1->w) == 0, "best weight " << wshow(b0->w) << " before and " << wshow(b1->w) << " after the reduction\n" << show(e));
    if (large) c.label("large"); c.label(b0 ? "target reachable" : "target unreachable"); c.label(after.size() < before.size() ? "rules removed" : "no rule removed"); c.label("aggressivity " + std::to_string(agg));
    if (b0 && after.size() < before.size()) { c.nontrivial(); c.label("reachable and reduced"); }
}
PBT_MAIN(prop)
