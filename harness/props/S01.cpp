// Every engine's verdict equals the reference verdict (naive pre*).
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 3
#include "../big.hpp"
static void prop(pbt::Src& s, pbt::Ctx& c) { gen::WGen w; if (s.coin(1, 2)) big::ask<void, 1>(s, c, w, "unweighted"); else big::ask<uint32_t, 1>(s, c, w, "uint weights"); }
PBT_MAIN(prop)
#else
#if PART == 0
using WT = void;
#elif PART == 1
using WT = uint32_t;
#else
using WT = int;
#endif
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = !std::is_void_v<WT>;
    if (PART == 2) { g.w.lo = -3; g.w.hi = 3; }
    auto k = make(s, c, g, PART == 2 ? "int weights" : g.weighted ? "uint weights" : "unweighted");
    bool from_nfa = !k.I.automaton && !k.F.automaton && s.coin(1, 2);
    bool reach = PreStar(k.d, k.F.pa, BOOL).solve(k.I.pa).has_value();
    classify(c, k, reach);
    int how = (int)s.draw(3); c.label(how == 0 ? "instance moved before the search" : how == 1 ? "asked on a copy first" : "instance asked directly");
    #define RUN(expr, who) do { auto made = instance<WT>(k, from_nfa, std::string(who).substr(0, 4) == "post" ? POST : std::string(who).substr(0, 3) == "pre" ? PRE : BOTH); \
        if (how == 0) { auto in = inst_t<WT>(std::move(made)); bool r = (expr); REQUIRE(r == reach, who << " answers " << r << " on a moved instance"); } \
        else { if (how == 1) { auto cp = made->copy(); auto* in = &cp; bool r = (expr); REQUIRE(r == reach, who << " answers " << r << " on a copy"); } \
            auto& in = made; bool r = (expr); REQUIRE(r == reach, who << " answers " << r << (how == 1 ? " after its copy was searched" : "")); } } while (0)
#if PART == 2
    constexpr auto P = TraceInfoType::Pair;
    #define RUNF(tt, nm) do { \
        { auto in = instance<WT, P>(k, from_nfa, POST); bool r = Solver::post_star_fixed_point_accepts<tt>(*in); REQUIRE(r == reach, "post* fixed point, " nm " answers " << r); } \
        { auto in = instance<WT, P>(k, from_nfa, PRE); bool r = Solver::pre_star_fixed_point_accepts<tt>(*in); REQUIRE(r == reach, "pre* fixed point, " nm " answers " << r); } \
        { auto in = instance<WT, P>(k, from_nfa); auto cp = in->copy(); bool r = Solver::interleaving_fixed_point_accepts<tt>(*in, cp).first; REQUIRE(r == reach, "interleaved fixed point, " nm " answers " << r); } } while (0)
    RUNF(Trace_Type::Longest, "longest"); RUNF(Trace_Type::ShortestFixedPoint, "shortest");
    return;
#endif
    RUN(Solver::post_star_accepts<Trace_Type::None>(*in), "post* (no trace)");
    RUN(Solver::post_star_accepts<Trace_Type::Any>(*in), "post* (any trace)");
    RUN(Solver::pre_star_accepts<Trace_Type::None>(*in), "pre* (no trace)");
    RUN(Solver::pre_star_accepts<Trace_Type::Any>(*in), "pre* (any trace)");
    RUN(Solver::dual_search_accepts<Trace_Type::None>(*in), "dual* (no trace)");
    RUN(Solver::dual_search_accepts<Trace_Type::Any>(*in), "dual* (any trace)");
    RUN(Solver::post_star_accepts_no_ET<Trace_Type::Any>(*in), "post* without early termination");
    RUN(Solver::pre_star_accepts_no_ET(*in), "pre* without early termination");
#if PART == 1
    RUN(Solver::post_star_accepts<Trace_Type::Shortest>(*in), "post* (shortest trace)");
    RUN(Solver::pre_star_accepts<Trace_Type::Shortest>(*in), "pre* (shortest trace)");
    RUN(Solver::dual_search_accepts<Trace_Type::Shortest>(*in), "dual* (shortest trace)");
#endif
}
PBT_MAIN(prop)
#endif
