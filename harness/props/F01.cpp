// Factories: the instance compiled from a user's initial states, successor function and accepting states answers as the system they describe.
#include "../solve.hpp"
#include <pdaaal/PDAFactory.h>
using namespace solve;
namespace {
#ifndef PART
#define PART 0
#endif
#if PART == 0
using WT = void;
#else
using WT = uint32_t;
#endif
constexpr bool weighted = !std::is_void_v<WT>;
using W = pdaaal::weight<WT>;
std::unordered_set<char> labels(const Pds& d) { std::unordered_set<char> r; for (int l = 0; l < d.L; ++l) r.insert(lab(l)); return r; }
template <class R> std::vector<R> mk_rules(const Pds& d, int from, char wild) {
    std::vector<R> v;
    for (auto& r : d.rules) if (r.from == from) {
        auto one = [&](char pre) { R x; x._from = r.from; x._to = r.to; x._op = op(r.op); x._pre = pre; x._op_label = r.lab >= 0 ? lab(r.lab) : 0; if constexpr (requires { x._weight; }) x._weight = wconv<std::conditional_t<weighted, WT, int>>::to(r.w); v.push_back(x); };
        if (r.wild) one(wild); else for (int l : r.pre) one(lab(l));
    }
    return v;
}
struct Dfs : pdaaal::DFS_PDAFactory<char, W> {
    using parent = pdaaal::DFS_PDAFactory<char, W>; using rule_t = typename parent::rule_t;
    const Pds& d; std::vector<size_t> ini, acc;
    Dfs(const Pds& d_, std::vector<size_t> i, std::vector<size_t> a) : parent(labels(d_), '*'), d(d_), ini(i), acc(a) {}
protected:
    const std::vector<size_t>& initial() override { return ini; }
    bool accepting(size_t s) override { return std::find(acc.begin(), acc.end(), s) != acc.end(); }
    std::vector<rule_t> rules(size_t s) override { return mk_rules<rule_t>(d, (int)s, '*'); }
};
template <pdaaal::TraceInfoType tt> struct Plain : pdaaal::PDAFactory<char, W, tt> {
    using parent = pdaaal::PDAFactory<char, W, tt>; using rule_t = typename parent::rule_t;
    const Pds& d; std::vector<size_t> ini, acc;
    Plain(const Pds& d_, std::vector<size_t> i, std::vector<size_t> a) : parent(labels(d_)), d(d_), ini(i), acc(a) {}
protected:
    void build_pda() override { for (int q = 0; q < d.n; ++q) for (auto& r : mk_rules<rule_t>(d, q, 0)) { if (r._pre == 0) this->add_wildcard_rule(r); else this->add_rule(r); } }
    const std::vector<size_t>& initial() override { return ini; }
    const std::vector<size_t>& accepting() override { return acc; }
};
void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = weighted; Case k;
    if (s.coin(1, 2)) {
        auto [d, IF] = gen::directed(s, g); k.d = d; k.I = IF.first; k.F = IF.second;
        for (auto* l : {&k.I, &k.F}) if (l->automaton) { auto x = gen::sample(s, l->pa); if (!x) throw pbt::Discard{}; *l = gen::Lang{}; l->states = {(size_t)x->p}; ReP r; for (int a : x->st) { ReP e = s.coin(1, 4) ? mk(Re::Any) : mkset({a}, false); r = r ? mk(Re::Cat, r, e) : e; } l->re = r ? r : mk(Re::EmptyString); }
    } else { k.d = gen::pds(s, g); k.I = gen::lang(s, k.d, 2, false); k.F = gen::lang(s, k.d, 2, false); }
    if (s.coin(1, 4)) { k.d.n += s.range(1, 2); (s.coin(1, 2) ? k.I : k.F).states.push_back(k.d.n - 1); } // states without rules
    for (auto* l : {&k.I, &k.F}) { std::sort(l->states.begin(), l->states.end()); l->states.erase(std::unique(l->states.begin(), l->states.end()), l->states.end()); l->pa = mkpa(k.d.n, l->states, to_nfa(l->re, k.d.L)); }
    c.note([&] { return show(k.d) + "initial: " + gen::show(k.I) + "\nfinal: " + gen::show(k.F); });
    auto opt = PreStar(k.d, k.F.pa, weighted ? MIN : BOOL).solve(k.I.pa);
    auto a = nfa(k.I.re), b = nfa(k.F.re); a.compile(); b.compile();
    int mode = (int)s.draw(3);
    auto eng = [&](auto& in, const std::string& who) {
        bool r; std::vector<Config> t;
        switch (mode) {
            case 0: r = Solver::post_star_accepts<Trace_Type::Any>(in); if (r) t = read_trace(Solver::get_trace<Trace_Type::Any>(in)); break;
            case 1: r = Solver::pre_star_accepts<Trace_Type::Any>(in); if (r) t = read_trace(Solver::get_trace<Trace_Type::Any>(in)); break;
            default: if constexpr (weighted) { r = Solver::post_star_accepts<Trace_Type::Shortest>(in); if (r) { auto [tr, w] = Solver::get_trace<Trace_Type::Shortest>(in); t = read_trace(tr); if (opt) REQUIRE(wcmp(Wt{(long long)w}, opt->w) == 0, who << ": weight " << w << " instead of " << wshow(opt->w)); } } else { r = Solver::dual_search_accepts<Trace_Type::Any>(in); if (r) t = read_trace(Solver::get_trace_dual_search(in)); }
        }
        REQUIRE(r == opt.has_value(), who << ": answers " << r << ", expected " << opt.has_value());
        if (r) check_trace(k.d, k.I.pa, k.F.pa, t, who.c_str());
    };
    bool dfs = s.coin(2, 3);
    if (dfs) {
        Dfs f(k.d, k.I.states, k.F.states); auto in = f.compile(a, b);
        if (s.coin(1, 2)) { auto in2 = std::move(in); eng(*in2, "depth-first factory, moved instance"); } else eng(*in, "depth-first factory");
        c.label("depth-first factory");
    } else { Plain<TraceInfoType::Single> f(k.d, k.I.states, k.F.states); auto in = f.compile(a, b); eng(*in, "factory"); c.label("factory"); }
    classify(c, k, opt.has_value());
}
}
PBT_MAIN(prop)
