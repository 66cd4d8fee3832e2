// Saturated automata: after post* (pre*) the automaton accepts exactly the successors (predecessors) of the given set, with
// the right weight per configuration, and hands out a run for each.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 0
using WT = void;
#else
using WT = uint32_t;
#endif
constexpr bool weighted = !std::is_void_v<WT>;
using IA = pdaaal::internal::PAutomaton<pdaaal::weight<WT>>;
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = weighted; g.max_states = 3;
    auto k = make(s, c, g, weighted ? "uint weights" : "unweighted");
    auto p = pda<WT>(k.d);
    // configurations to ask about: members of the sets, their successors, the ends of random runs, and random ones
    std::vector<Config> ask;
    auto add = [&](const Config& x) { if (x.st.size() < 8 && std::find(ask.begin(), ask.end(), x) == ask.end()) ask.push_back(x); };
    auto walk = [&](Config x, int n) { add(x); for (int i = 0; i < n; ++i) { auto y = succ(k.d, x); if (y.empty()) break; x = s.pick(y).first; if (x.st.size() > 7) break; if (s.coin(1, 2)) add(x); } add(x); };
    for (int i = 0; i < 2; ++i) if (auto m = gen::sample(s, k.I.pa)) walk(*m, s.range(0, 8));
    if (auto m = gen::sample(s, k.F.pa)) add(*m);
    int rnd = s.range(1, 3);
    for (int i = 0; i < rnd; ++i) { Config x{(int)s.draw(k.d.n), {}}; int len = s.range(0, 4); for (int j = 0; j < len; ++j) x.st.push_back((int)s.draw(k.d.L)); add(x); if (!x.st.empty() && s.coin(1, 2)) walk(x, 4); }
    auto enc = [&](const Config& x) { std::vector<uint32_t> r; for (int l : x.st) r.push_back(p.exists_label(lab(l)).second); return r; };
    auto ch = [&](const Config& x) { std::vector<char> r; for (int l : x.st) r.push_back(lab(l)); return r; };
    PreStar toF(k.d, k.F.pa, weighted ? MIN : BOOL);
    auto apost = automaton<WT>(p, k.I), apre = automaton<WT>(p, k.F);
    Solver::post_star<Trace_Type::Any>(apost); Solver::pre_star<Trace_Type::Any>(static_cast<IA&>(apre));
#if PART == 1
    auto spost = automaton<WT>(p, k.I), spre = automaton<WT>(p, k.F);
    Solver::post_star<Trace_Type::Shortest>(spost); Solver::pre_star<Trace_Type::Shortest>(static_cast<IA&>(spre));
#endif
    int yes = 0, far = 0;
    for (auto& x : ask) {
        auto st = enc(x); RPa one = single(k.d.n, k.d.L, x);
        auto rpost = PreStar(k.d, one, weighted ? MIN : BOOL).solve(k.I.pa);
        auto rpre = toF.solve(one);
        c.note([&] { return "ask " + show(x) + (rpost ? " is a successor of the first set" : "") + (rpre ? " is a predecessor of the second set" : ""); });
        REQUIRE(apost.accepts(x.p, st) == rpost.has_value(), "after post*, accepts " << show(x) << " is " << !rpost);
        REQUIRE(apre.accepts(x.p, st) == rpre.has_value(), "after pre*, accepts " << show(x) << " is " << !rpre);
        REQUIRE(apost.accept_path(x.p, st).empty() == !rpost, "after post*, accept_path of " << show(x));
        REQUIRE(apre.accept_path(x.p, st).empty() == !rpre, "after pre*, accept_path of " << show(x));
        if (rpost) check_trace(k.d, k.I.pa, one, read_trace(Solver::get_trace(p, static_cast<const IA&>(apost), x.p, ch(x))), "trace out of the post* automaton");
        else REQUIRE(Solver::get_trace(p, static_cast<const IA&>(apost), x.p, ch(x)).empty(), "trace to " << show(x) << ", which is not reachable");
        if (rpre) { auto t = read_trace(Solver::get_trace(p, static_cast<const IA&>(apre), x.p, st)); check_trace(k.d, one, k.F.pa, t, "trace out of the pre* automaton"); far += t.size() > 1; }
        else REQUIRE(Solver::get_trace(p, static_cast<const IA&>(apre), x.p, st).empty(), "trace from " << show(x) << ", which does not reach the set");
        { auto e = automaton<WT>(p, k.F); bool r = Solver::pre_star_accepts<Trace_Type::Any>(static_cast<IA&>(e), x.p, st); REQUIRE(r == rpre.has_value(), "pre* with early termination answers " << r << " for " << show(x)); }
#if PART == 1
        auto wchk = [&](auto& a, const std::optional<Val>& ref, bool post, const char* who) {
            auto [path, w] = a.template accept_path<Trace_Type::Shortest>(x.p, st);
            REQUIRE(path.empty() == !ref, who << ": accept_path of " << show(x));
            if (!ref) return;
            REQUIRE(wcmp(Wt{(long long)w}, ref->w) == 0, who << ": weight " << w << " for " << show(x) << " instead of " << wshow(ref->w));
            auto [t0, tw] = Solver::get_trace<Trace_Type::Shortest>(p, static_cast<const IA&>(a), x.p, ch(x)); auto t = read_trace(t0);
            Wt tot = post ? check_trace(k.d, k.I.pa, one, t, who) : check_trace(k.d, one, k.F.pa, t, who);
            REQUIRE(wcmp(Wt{(long long)tw}, ref->w) == 0 && wcmp(tot, ref->w) == 0, who << ": trace of weight " << wshow(tot) << ", reported " << tw << ", optimum " << wshow(ref->w) << show_trace(t));
        };
        wchk(spost, rpost, true, "shortest post*"); wchk(spre, rpre, false, "shortest pre*");
        { auto e = automaton<WT>(p, k.F); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(static_cast<IA&>(e), x.p, st); REQUIRE(r == rpre.has_value(), "shortest pre* with early termination answers " << r << " for " << show(x)); }
#endif
        c.label(rpost ? "successor" : "no successor"); c.label(rpre ? "predecessor" : "no predecessor");
        if (x.st.empty() && rpost) c.label("reachable with empty stack");
        yes += rpost.has_value() + rpre.has_value();
    }
    if (yes && far && !k.d.rules.empty()) c.nontrivial();
}
PBT_MAIN(prop)
