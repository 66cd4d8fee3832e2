// A small question embedded in a large system: many more states, labels, rules and automaton states than the question uses, so that
// all numbers are large (around 2^8 and 2^16). The additions never take part in a run, so the small question's reference decides.
#pragma once
#include "solve.hpp"
namespace big {
using namespace solve;
struct Emb { size_t n = 0, L = 0; std::vector<size_t> st; std::vector<uint32_t> lb; uint64_t seed = 0; size_t rules = 0, pad = 0; bool edges = false; };
inline std::string show(const Emb& e) { std::stringstream o; o << "embedded in " << e.n << " states, " << e.L << " labels, " << e.rules << " idle rules, " << e.pad << " idle automaton states (seed " << e.seed << "); states"; for (auto x : e.st) o << " " << x; o << "; labels"; for (auto x : e.lb) o << " " << x; return o.str(); }
inline Emb embed(pbt::Src& s, pbt::Ctx& c, const Case& k, bool fixed) {
    Emb e; static const size_t S[] = {12, 40, 300, 66000}; e.n = S[s.weighted({40, 40, 120, 1})]; e.L = S[s.weighted({40, 40, fixed ? 30 : 120, k.d.n <= 3 && !fixed ? 1 : 0})]; e.seed = s.draw(1 << 16); e.rules = s.weighted({1, 2, 2}) * s.draw(200); e.pad = s.draw(3) ? s.draw(20) : s.draw(300); e.edges = s.coin(1, 2);
    auto pick = [&](size_t n, size_t k) { std::vector<size_t> r; while (r.size() < k) { static const size_t B[] = {0, 1, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537}; size_t x = s.coin(1, 2) ? B[s.draw(12)] : s.coin(1, 2) ? n - 1 - s.draw(4) : s.draw(n); if (x >= n) x %= n; while (std::find(r.begin(), r.end(), x) != r.end()) x = (x + 1) % n; r.push_back(x); } return r; };
    e.st = pick(e.n, k.d.n); for (auto x : pick(e.L, k.d.L)) e.lb.push_back((uint32_t)x);
    c.note([&] { return show(e); }); c.label(e.n > 60000 || e.L > 60000 ? "embedded, numbers above 65536" : e.n > 200 || e.L > 200 || e.rules > 200 ? "embedded, numbers above 256" : "embedded, small numbers");
    return e;
}
template <class WT, TraceInfoType tt = TraceInfoType::Single> using binst_t = pdaaal::SolverInstance<int, pdaaal::weight<WT>, size_t, true, tt>;
template <class WT, TraceInfoType tt = TraceInfoType::Single> binst_t<WT, tt> instance(const Case& k, const Emb& e) {
    using P = typename binst_t<WT, tt>::pda_t; using A = typename binst_t<WT, tt>::pautomaton_t; uint64_t x = e.seed * 2654435761u + 12345;
    auto rnd = [&](size_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (size_t)(x % n); };
    std::unordered_set<int> labels; for (size_t l = 0; l < e.L; ++l) labels.insert((int)l); P p(labels);
    std::vector<uint32_t> idle; std::set<uint32_t> used(e.lb.begin(), e.lb.end()); for (int i = 0; i < 40; ++i) { auto l = (uint32_t)rnd(e.L); if (!used.count(l)) idle.push_back(l); }
    auto add = [&](size_t f, size_t t, pdaaal::op_t o, int l, bool wild, const std::vector<int>& pre, const Wt& w) { if constexpr (std::is_void_v<WT>) p.add_rule(f, t, o, l, wild, pre); else p.add_rule(f, t, o, l, wild, pre, wconv<WT>::to(w)); };
    static const pdaaal::op_t O[] = {pdaaal::SWAP, pdaaal::PUSH, pdaaal::POP, pdaaal::NOOP};
    auto pad = [&](size_t m) { if (!idle.empty()) for (size_t i = 0; i < m; ++i) add(rnd(4) ? e.st[rnd(e.st.size())] : rnd(e.n), rnd(2) ? rnd(e.n) : e.st[rnd(e.st.size())], O[rnd(4)], rnd(2) ? (int)rnd(e.L) : (int)e.lb[rnd(e.lb.size())], false, {(int)idle[rnd(idle.size())]}, {}); };
    pad(e.rules / 2);
    for (auto& r : k.d.rules) { std::vector<int> pre; for (int l : r.pre) pre.push_back(e.lb[l]); std::sort(pre.begin(), pre.end()); add(e.st[r.from], e.st[r.to], op(r.op), r.lab >= 0 ? (int)e.lb[r.lab] : 0, r.wild, pre, r.w); }
    pad(e.rules - e.rules / 2); p.insert_state(e.n - 1);
    auto aut = [&](const gen::Lang& g) {
        std::vector<size_t> acc; for (int i = 0; i < g.pa.n; ++i) if (g.pa.acc[i]) acc.push_back(e.st[i]); std::sort(acc.begin(), acc.end());
        A a(p, acc, true); std::vector<size_t> id(e.st.begin(), e.st.end());
        for (int i = g.pa.n; i < g.pa.N; ++i) { for (size_t j = 0; j < e.pad / (g.pa.N - g.pa.n); ++j) a.add_state(false, rnd(2)); id.push_back(a.add_state(false, g.pa.acc[i])); }
        for (auto& [f, l, t] : g.pa.tr) a.add_edge(id[f], id[t], e.lb[l]);
        return a;
    };
    auto i = aut(k.I), f = aut(k.F); return binst_t<WT, tt>(std::move(p), std::move(i), std::move(f));
}
template <class Tr> std::vector<Config> read_trace(const Emb& e, const Tr& t, const std::string& who) {
    std::vector<Config> r; for (auto& s : t) { auto q = std::find(e.st.begin(), e.st.end(), s._pdastate); REQUIRE(q != e.st.end(), who << ": trace visits state " << s._pdastate << ", which no run can"); Config c{(int)(q - e.st.begin()), {}}; for (auto l : s._stack) { auto i = std::find(e.lb.begin(), e.lb.end(), (uint32_t)l); REQUIRE(i != e.lb.end(), who << ": trace has label " << l << ", which no run can"); c.st.push_back((int)(i - e.lb.begin())); } r.push_back(c); }
    return r;
}
// Long stacks and long runs: rules grown along a run of up to 150 steps from a stack of up to 80 symbols; the target is where it ends.
inline Case deep(pbt::Src& s, pbt::Ctx& c, const gen::PdsGen& g, const char* what) {
    Case k; auto& d = k.d; d.n = s.range(1, 4); d.L = s.range(1, 3); bool tall = s.coin(2, 3); Config x{(int)s.draw(d.n), {}}; int m = tall ? s.range(20, 80) : s.range(1, 3); for (int i = 0; i < m; ++i) x.st.push_back((int)s.draw(d.L));
    k.I = gen::point(s, d, x); int steps = s.range(10, 150), longest = m;
    for (int i = 0; i < steps && !x.st.empty() && x.st.size() < 120; ++i) {
        auto n = succ(d, x);
        if (n.empty() || (d.rules.size() < 10 && s.coin(1, 8))) {
            model::Rule r; r.from = x.p; r.wild = s.coin(1, 6); if (!r.wild) r.pre = {x.st[0]}; r.to = (int)s.draw(d.n); r.op = std::vector<Op>{SWAP, PUSH, POP, NOOP}[s.weighted({1, tall ? 2 : 5, tall ? 5 : 1, 1})]; r.lab = r.op == PUSH || r.op == SWAP ? (int)s.draw(d.L) : -1; if (g.weighted) r.w = gen::weight(s, g.w);
            d.rules.push_back(r); Pds one = d; one.rules = {r}; n = succ(one, x);
        }
        auto y = s.pick(n).first; if (y.st.empty() && i + 1 < steps) break; x = y; longest = std::max(longest, (int)x.st.size());
    }
    k.F = gen::point(s, d, x); c.note([&] { return std::string(what) + ", deep\n" + model::show(d) + "initial: " + gen::show(k.I) + "\nfinal: " + gen::show(k.F); }); c.label(longest > 60 ? "stack of more than 60 symbols" : "stack of up to 60 symbols");
    return k;
}
// level 1: verdict, 2: trace is a run, 3: and of optimal weight
template <class WT, int level, bool fixed = false, Trace_Type ft = Trace_Type::Longest> void ask(pbt::Src& s, pbt::Ctx& c, gen::WGen w, const char* nm) {
    constexpr bool weighted = !std::is_void_v<WT>; gen::PdsGen g; g.weighted = weighted; g.w = w; bool dp = !fixed && s.coin(1, 5); auto k = dp ? deep(s, c, g, nm) : make(s, c, g, nm); Emb e; if (dp) { e.n = k.d.n; e.L = k.d.L; for (int i = 0; i < k.d.n; ++i) e.st.push_back(i); for (int i = 0; i < k.d.L; ++i) e.lb.push_back(i); } else e = embed(s, c, k, fixed);
    constexpr bool maximize = fixed && ft == Trace_Type::Longest; auto opt = PreStar(k.d, k.F.pa, level < 3 || !weighted ? BOOL : maximize ? MAX : MIN).solve(k.I.pa); classify(c, k, opt.has_value());
    if (level == 3 && opt && opt->inf) c.label("unbounded");
    auto chk = [&](bool r, auto&& get, const char* who, bool optimal) {
        if (level != 2) REQUIRE(r == opt.has_value(), who << " answers " << r); if (!r || level < 2) return;
        auto x = get(); std::vector<Config> t;
        if constexpr (requires { x.second; }) {
            if constexpr (fixed && weighted) { bool inf = x.second == pdaaal::internal::solver_weight<pdaaal::weight<WT>, ft>::bottom() && (ft == Trace_Type::Longest || std::is_signed_v<WT>); if (level == 3) REQUIRE(inf == opt->inf, who << ": unbounded " << opt->inf << ", reported " << inf); if (inf) return; }
            if (level == 3 && optimal) { Wt rep = wconv<WT>::from(x.second); REQUIRE(wcmp(rep, opt->w) == 0, who << ": reported weight " << wshow(rep) << " but optimum " << wshow(opt->w)); }
            t = read_trace(e, x.first, who);
        } else t = read_trace(e, x, who);
        Wt tot = check_trace(k.d, k.I.pa, k.F.pa, t, who, maximize); if (level == 3 && optimal) REQUIRE(wcmp(tot, opt->w) == 0, who << ": trace weight " << wshow(tot) << " but optimum " << wshow(opt->w) << show_trace(t));
    };
    constexpr auto A = Trace_Type::Any;
    if constexpr (fixed) {
        constexpr auto P = TraceInfoType::Pair;
        { auto in = instance<WT, P>(k, e); bool r = Solver::post_star_fixed_point_accepts<ft>(*in); chk(r, [&] { return Solver::get_trace<ft>(*in); }, "post*", true); }
        { auto in = instance<WT, P>(k, e); bool r = Solver::pre_star_fixed_point_accepts<ft>(*in); chk(r, [&] { return Solver::get_trace<ft>(*in); }, "pre*", true); }
    } else {
        if (level < 3) {
            { auto in = instance<WT>(k, e); bool r = Solver::post_star_accepts<A>(*in); chk(r, [&] { return Solver::get_trace<A>(*in); }, "post*", false); }
            { auto in = instance<WT>(k, e); bool r = Solver::pre_star_accepts<A>(*in); chk(r, [&] { return Solver::get_trace<A>(*in); }, "pre*", false); }
            { auto in = instance<WT>(k, e); bool r = Solver::dual_search_accepts<A>(*in); chk(r, [&] { return Solver::get_trace_dual_search<A>(*in); }, "dual*", false); }
        }
        if constexpr (weighted) {
            constexpr auto S = Trace_Type::Shortest;
            { auto in = instance<WT>(k, e); bool r = Solver::post_star_accepts<S>(*in); chk(r, [&] { return Solver::get_trace<S>(*in); }, "post* shortest", true); }
            { auto in = instance<WT>(k, e); bool r = Solver::pre_star_accepts<S>(*in); chk(r, [&] { return Solver::get_trace<S>(*in); }, "pre* shortest", true); }
            { auto in = instance<WT>(k, e); bool r = Solver::dual_search_accepts<S>(*in); chk(r, [&] { return Solver::get_trace_dual_search<S>(*in); }, "dual* shortest", true); }
        }
    }
}
} // namespace big
