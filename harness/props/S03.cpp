// Shortest-trace search: reported weight is the minimum over all runs, and the trace realises it.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 4
#include "../big.hpp"
static void prop(pbt::Src& s, pbt::Ctx& c) { gen::WGen w; w.hi = 5; big::ask<uint32_t, 3>(s, c, w, "uint"); }
PBT_MAIN(prop)
#else
template <class WT> void go(pbt::Src& s, pbt::Ctx& c, gen::WGen w, const char* nm) {
    gen::PdsGen g; g.w = w;
    auto k = make(s, c, g, nm);
    bool from_nfa = !k.I.automaton && !k.F.automaton && s.coin(1, 2);
    auto opt = PreStar(k.d, k.F.pa, MIN).solve(k.I.pa);
    if (opt && w.hi > 1000) for (auto x : opt->w) if (x > (std::is_same_v<WT, int> ? 2147483646LL : 4294967294LL)) throw pbt::Discard{};   // beyond the range of the weights
    classify(c, k, opt.has_value()); if (w.hi > 1000) c.label("weights up to 4e8");
    if (opt) { bool nz = false; for (auto x : opt->w) nz |= x != 0; c.label(nz ? "optimum > 0" : "optimum 0"); }
    auto chk = [&](bool r, auto&& get, const char* who) {
        REQUIRE(r == opt.has_value(), who << " answers " << r);
        if (!r) return;
        auto tw = get(); auto t = read_trace(tw.first); Wt rep = wconv<WT>::from(tw.second);
        REQUIRE(wcmp(rep, opt->w) == 0, who << ": reported weight " << wshow(rep) << " but optimum " << wshow(opt->w));
        Wt tot = check_trace(k.d, k.I.pa, k.F.pa, t, who);
        REQUIRE(wcmp(tot, opt->w) == 0, who << ": trace weight " << wshow(tot) << " but optimum " << wshow(opt->w) << show_trace(t));
    };
    { auto in = instance<WT>(k, from_nfa, POST); chk(Solver::post_star_accepts<Trace_Type::Shortest>(*in), [&] { return Solver::get_trace<Trace_Type::Shortest>(*in); }, "post*"); }
    { auto in = instance<WT>(k, from_nfa, PRE); chk(Solver::pre_star_accepts<Trace_Type::Shortest>(*in), [&] { return Solver::get_trace<Trace_Type::Shortest>(*in); }, "pre*"); }
    { auto in = instance<WT>(k, from_nfa); chk(Solver::dual_search_accepts<Trace_Type::Shortest>(*in), [&] { return Solver::get_trace_dual_search<Trace_Type::Shortest>(*in); }, "dual*"); }
    if (std::is_same_v<WT, uint32_t> || s.coin(1, 4)) {   // the interleaved search optimises through the fixed-point engines
        constexpr auto tt = Trace_Type::ShortestFixedPoint; auto in = instance<WT, TraceInfoType::Pair>(k, from_nfa); auto cp = in->copy(); auto [r, pre] = Solver::interleaving_fixed_point_accepts<tt>(*in, cp); chk(r, [&] { return Solver::get_trace<tt>(pre ? cp : *in); }, "interleaved"); }
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::WGen w; w.hi = s.coin(1, 4) ? 1 : s.coin(1, 4) ? 1000 : s.coin(1, 6) ? 400000000 : 5;
#if PART == 0
    go<uint32_t>(s, c, w, "uint");
#elif PART == 1
    go<int>(s, c, w, "int");
#elif PART == 2
    w.dim = 2; go<std::array<uint32_t, 2>>(s, c, w, "array<uint,2>");
#else
    w.dim = 3; w.varlen = true; go<std::vector<uint32_t>>(s, c, w, "vector<uint>");
#endif
}
PBT_MAIN(prop)
#endif
