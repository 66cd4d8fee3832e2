// Every trace an engine hands out is a run of the system from the initial to the final set.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 3
#include "../big.hpp"
static void prop(pbt::Src& s, pbt::Ctx& c) { gen::WGen w; if (s.coin(1, 2)) big::ask<void, 2>(s, c, w, "unweighted"); else big::ask<uint32_t, 2>(s, c, w, "uint weights"); }
PBT_MAIN(prop)
#else
#if PART == 0
using WT = void;
#elif PART == 1
using WT = uint32_t;
#else
using WT = int;
#endif
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = !std::is_void_v<WT>;
    if (PART == 2) { g.w.lo = -2; g.w.hi = 4; }
    auto k = make(s, c, g, PART == 2 ? "int weights" : g.weighted ? "uint weights" : "unweighted");
    bool from_nfa = !k.I.automaton && !k.F.automaton && s.coin(1, 2);
    bool move = s.coin(1, 4); if (move) c.label("instance moved between search and trace");
    size_t longest = 0; bool any = false;
    auto chk = [&](bool r, auto&& get, const char* who) {
        if (!r) return;
        auto first = get(); auto t = read_trace(first); check_trace(k.d, k.I.pa, k.F.pa, t, who); longest = std::max(longest, t.size()); any = true;
    };
#if PART == 2
    constexpr auto P = TraceInfoType::Pair;
    auto fix = [&](auto ttc, const std::string& nm) {
        constexpr Trace_Type tt = decltype(ttc)::value;
        auto one = [&](bool r, auto& in, const std::string& who) {
            if (!r) return; auto tw = Solver::get_trace<tt>(in); if (tw.second == pdaaal::internal::solver_weight<pdaaal::weight<WT>, tt>::bottom()) return;   // unbounded: no trace
            chk(true, [&] { return tw.first; }, (who + nm).c_str());
        };
        { auto in = instance<WT, P>(k, from_nfa, POST); bool r = Solver::post_star_fixed_point_accepts<tt>(*in); one(r, *in, "post* "); }
        { auto in = instance<WT, P>(k, from_nfa, PRE); bool r = Solver::pre_star_fixed_point_accepts<tt>(*in); one(r, *in, "pre* "); }
        { auto in = instance<WT, P>(k, from_nfa); auto cp = in->copy(); auto [r, pre] = Solver::interleaving_fixed_point_accepts<tt>(*in, cp); one(r, pre ? cp : *in, "interleaved "); }
    };
    fix(std::integral_constant<Trace_Type, Trace_Type::Longest>{}, "longest"); fix(std::integral_constant<Trace_Type, Trace_Type::ShortestFixedPoint>{}, "shortest fixed point");
#else
    { auto in = instance<WT>(k, from_nfa, POST); bool r = Solver::post_star_accepts_no_ET<Trace_Type::Any>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Any>(*m); } return Solver::get_trace<Trace_Type::Any>(*in); }, "post* without early termination"); }
    { auto in = instance<WT>(k, from_nfa, PRE); bool r = Solver::pre_star_accepts_no_ET(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Any>(*m); } return Solver::get_trace<Trace_Type::Any>(*in); }, "pre* without early termination"); }
    { auto in = instance<WT>(k, from_nfa, POST); bool r = Solver::post_star_accepts<Trace_Type::Any>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Any>(*m); } return Solver::get_trace<Trace_Type::Any>(*in); }, "post*"); }
    { auto in = instance<WT>(k, from_nfa, PRE); bool r = Solver::pre_star_accepts<Trace_Type::Any>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Any>(*m); } return Solver::get_trace<Trace_Type::Any>(*in); }, "pre*"); }
    { auto in = instance<WT>(k, from_nfa); bool r = Solver::dual_search_accepts<Trace_Type::Any>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace_dual_search<Trace_Type::Any>(*m); } return Solver::get_trace_dual_search<Trace_Type::Any>(*in); }, "dual*"); }
#if PART == 1
    { auto in = instance<WT>(k, from_nfa, POST); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Shortest>(*m).first; } return Solver::get_trace<Trace_Type::Shortest>(*in).first; }, "post* shortest"); }
    { auto in = instance<WT>(k, from_nfa, PRE); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace<Trace_Type::Shortest>(*m).first; } return Solver::get_trace<Trace_Type::Shortest>(*in).first; }, "pre* shortest"); }
    { auto in = instance<WT>(k, from_nfa); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(*in); chk(r, [&] { if (move) { auto m = inst_t<WT>(std::move(in)); return Solver::get_trace_dual_search<Trace_Type::Shortest>(*m).first; } return Solver::get_trace_dual_search<Trace_Type::Shortest>(*in).first; }, "dual* shortest"); }
#endif
#endif
    c.label(!any ? "no trace" : longest <= 1 ? "trace without steps" : longest <= 4 ? "trace of 1-3 steps" : longest <= 10 ? "trace of 4-9 steps" : "trace of 10+ steps");
    if (longest > 1) c.nontrivial();
}
PBT_MAIN(prop)
#endif
