// Fixed-point engines (longest trace, shortest trace with negative weights): optimum, or "unbounded" exactly when it is.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 8
#include "../big.hpp"
static void prop(pbt::Src& s, pbt::Ctx& c) { gen::WGen w; w.lo = -4; w.hi = 3; if (s.coin(1, 2)) big::ask<int, 3, true, pdaaal::Trace_Type::Longest>(s, c, w, "int longest"); else big::ask<int, 3, true, pdaaal::Trace_Type::ShortestFixedPoint>(s, c, w, "int shortest"); }
PBT_MAIN(prop)
#else
template <class WT, Trace_Type tt> void go(pbt::Src& s, pbt::Ctx& c, gen::WGen w, const char* nm) {
    constexpr bool maximize = tt == Trace_Type::Longest;
    gen::PdsGen g; g.w = w;
    auto k = make(s, c, g, nm);
    bool from_nfa = !k.I.automaton && !k.F.automaton && s.coin(1, 2);
    PreStar ref(k.d, k.F.pa, maximize ? MAX : MIN);
    auto opt = ref.solve(k.I.pa);
    // Several weight components: a lower-priority component that is unbounded somewhere is a known finding (KF1);
    // here only systems where every unbounded value is unbounded in its first component.
    if (w.dim > 1) {
        Pds d1 = k.d; for (auto& r : d1.rules) r.w.resize(r.w.empty() ? 0 : 1);
        PreStar r1(d1, k.F.pa, maximize ? MAX : MIN);
        for (size_t i = 0; i < ref.v.size(); ++i) if (ref.v[i] && ref.v[i]->inf != r1.v[i]->inf) { c.label("discarded: lower component unbounded"); throw pbt::Discard{}; }
        auto o1 = r1.solve(k.I.pa); if (opt && opt->inf != o1->inf) { c.label("discarded: lower component unbounded"); throw pbt::Discard{}; }
    }
    if (opt && !opt->inf) for (auto x : opt->w) if (x > (1 << 30) || x < -(1 << 30)) throw pbt::Discard{};
    c.label(!opt ? "unreachable" : opt->inf ? "unbounded" : "finite optimum");
    if (opt && !k.d.rules.empty()) c.nontrivial();
    using W = pdaaal::weight<WT>;
    auto chk = [&](bool r, auto& in, const std::string& who) {
        REQUIRE(r == opt.has_value(), who << " answers " << r);
        if (!r) return;
        auto tw = Solver::get_trace<tt>(in);
        auto bottom = pdaaal::internal::solver_weight<W, tt>::bottom();
        Wt rep = wconv<WT>::from(tw.second);
        if (opt->inf) { REQUIRE(tw.second == bottom, who << ": unbounded, but reported " << wshow(rep)); return; }
        REQUIRE(wcmp(rep, opt->w) == 0, who << ": reported weight " << wshow(rep) << " but optimum " << wshow(opt->w));
        auto t = read_trace(tw.first);
        Wt tot = check_trace(k.d, k.I.pa, k.F.pa, t, who.c_str(), maximize);
        REQUIRE(wcmp(tot, opt->w) == 0, who << ": trace weight " << wshow(tot) << " but optimum " << wshow(opt->w) << show_trace(t));
    };
    constexpr auto P = TraceInfoType::Pair;
    { auto in = instance<WT, P>(k, from_nfa, POST); bool r = Solver::post_star_fixed_point_accepts<tt>(*in); chk(r, *in, "post*"); }
    { auto in = instance<WT, P>(k, from_nfa, PRE); bool r = Solver::pre_star_fixed_point_accepts<tt>(*in); chk(r, *in, "pre*"); }
    { auto in = instance<WT, P>(k, from_nfa); auto cp = in->copy(); auto [r, pre] = Solver::interleaving_fixed_point_accepts<tt>(*in, cp); chk(r, pre ? cp : *in, pre ? "interleaving(pre*)" : "interleaving(post*)"); }
}
#if PART == 7
// Recorded finding KF1: (3,0) is the optimum, but another run is unbounded in the second component only.
static void prop(pbt::Src& s, pbt::Ctx& c) {
    Case k; k.d.n = 3; k.d.L = 1;
    auto rule = [&](int f, int t, Wt w) { model::Rule r; r.from = f; r.pre = {0}; r.to = t; r.op = model::SWAP; r.lab = 0; r.w = w; r.wild = false; k.d.rules.push_back(r); };
    rule(0, 1, {5, 0}); rule(1, 1, {0, -1}); rule(1, 2, {0, 0}); rule(0, 2, {3, 0});
    auto set = [&](size_t q) { gen::Lang l; l.states = {q}; l.re = mkset({0}, false); l.pa = mkpa(3, l.states, to_nfa(l.re, 1)); return l; };
    k.I = set(0); k.F = set(2);
    c.note([&] { return show(k.d) + "initial: " + gen::show(k.I) + "\nfinal: " + gen::show(k.F); });
    const Wt best{3, 0};   // the reference does not treat components apart; the optimum is evident here
    auto in = instance<std::array<int, 2>, TraceInfoType::Pair>(k, false); REQUIRE(Solver::post_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(*in), "not reachable");
    auto tw = Solver::get_trace<Trace_Type::ShortestFixedPoint>(*in); Wt rep = wconv<std::array<int, 2>>::from(tw.second);
    REQUIRE(wcmp(rep, best) == 0, "reported weight " << wshow(rep) << " but optimum " << wshow(best));
}
PBT_MAIN(prop)
#else
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::WGen u, i; u.hi = 4; i.lo = -4; i.hi = s.coin(1, 2) ? 4 : 1; if (s.coin(1, 8)) { i.lo *= 100000; i.hi *= 100000; }
    gen::WGen v = i; v.dim = 3; v.varlen = true; gen::WGen a = i; a.dim = 2;
    gen::WGen vu = u; vu.dim = 3; vu.varlen = true; vu.hi = 3;
#if PART == 0
    go<int, Trace_Type::ShortestFixedPoint>(s, c, i, "int shortest");
#elif PART == 1
    go<int, Trace_Type::Longest>(s, c, i, "int longest");
#elif PART == 2
    if (s.coin(1, 2)) go<uint32_t, Trace_Type::Longest>(s, c, u, "uint longest"); else go<uint32_t, Trace_Type::ShortestFixedPoint>(s, c, u, "uint shortest");
#elif PART == 3
    go<std::vector<int>, Trace_Type::ShortestFixedPoint>(s, c, v, "vector<int> shortest");
#elif PART == 4
    go<std::vector<int>, Trace_Type::Longest>(s, c, v, "vector<int> longest");
#elif PART == 5
    go<std::array<int, 2>, Trace_Type::ShortestFixedPoint>(s, c, a, "array<int,2> shortest");
#else
    go<std::vector<uint32_t>, Trace_Type::Longest>(s, c, vu, "vector<uint> longest");
#endif
}
PBT_MAIN(prop)
#endif
#endif
