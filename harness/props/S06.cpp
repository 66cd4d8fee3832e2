// Rule-level witnesses: the rule sequence, applied to the initial configuration, is a run that ends in the final one, and both
// come with accepting paths in the given automata.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
#if PART == 0
using WT = void;
#else
using WT = uint32_t;
#endif
constexpr bool weighted = !std::is_void_v<WT>;
using IA = pdaaal::internal::PAutomaton<pdaaal::weight<WT>>; // as it was before the search
static void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::PdsGen g; g.weighted = weighted;
    auto k = make(s, c, g, weighted ? "uint weights" : "unweighted");
    bool from_nfa = !k.I.automaton && !k.F.automaton && s.coin(1, 2);
    auto p = pda<WT>(k.d);
    auto opt = PreStar(k.d, k.F.pa, weighted ? MIN : BOOL).solve(k.I.pa);
    size_t longest = 0;
    auto dec = [&](uint32_t l) { return (int)(p.get_symbol(l) - 'A'); };
    auto path_ok = [&](auto& a, size_t state, const std::vector<size_t>& path, const std::vector<uint32_t>& st, const std::string& who) {
        REQUIRE(path.size() == st.size() + 1, who << ": path of " << path.size() << " states for " << st.size() << " symbols");
        REQUIRE(path[0] == state, who << ": path starts in state " << path[0] << " instead of " << state);
        for (size_t i = 0; i < st.size(); ++i) REQUIRE(path[i] < a.states().size() && a.states()[path[i]]->_edges.contains(path[i + 1], st[i]), who << ": no edge for step " << i << " path " << [&] { std::string o; for (auto q : path) o += std::to_string(q) + " "; return o; }());
        REQUIRE(path.back() < a.states().size() && a.states()[path.back()]->_accepting, who << ": path does not end in an accepting state");
    };
    auto chk = [&](const std::pair<IA, IA>& orig, bool r, auto&& get, const std::string& who, bool shortest = false) {
        REQUIRE(r == opt.has_value(), who << " answers " << r);
        auto& [i0, f0] = orig; auto t = get(); auto& [state, rules, ist, fst, ipath, fpath] = t;
        if (!r) { REQUIRE(state == std::numeric_limits<size_t>::max() && rules.empty(), who << ": unreachable, but a trace is handed out"); return; }
        REQUIRE(state < (size_t)k.d.n, who << ": initial state " << state);
        Config x{(int)state, {}}; for (auto l : ist) { REQUIRE(l < (uint32_t)k.d.L, who << ": label id"); x.st.push_back(dec(l)); }
        std::string shown = show(x); Wt tot;
        path_ok(i0, x.p, ipath, ist, who + ": path of the initial configuration");
        for (auto& u : rules) {
            REQUIRE(!x.st.empty() && (int)u._from == x.p && dec(u._pre) == x.st[0], who << ": rule does not apply after " << shown);
            bool found = false; bool lb = u._op == pdaaal::PUSH || u._op == pdaaal::SWAP;
            for (auto& q : k.d.rules) { bool m = q.from == x.p && q.to == (int)u._to && op(q.op) == u._op && k.d.has_pre(q, x.st[0]) && (!lb || q.lab == dec(u._op_label)); if constexpr (weighted) m = m && wcmp(q.w, Wt{(long long)u._weight}) == 0; found |= m; }
            REQUIRE(found, who << ": not a rule of the pda, after " << shown);
            x.p = (int)u._to; switch (u._op) { case pdaaal::POP: x.st.erase(x.st.begin()); break; case pdaaal::SWAP: x.st[0] = dec(u._op_label); break; case pdaaal::NOOP: break; case pdaaal::PUSH: x.st.insert(x.st.begin(), dec(u._op_label)); break; }
            [&](auto& p) { typename std::decay_t<decltype(p)>::rule_t ur(p, u); REQUIRE(ur._from == (size_t)u._from && ur._to == (size_t)u._to && ur._op == u._op && ur._pre == p.get_symbol(u._pre) && (!lb || ur._op_label == p.get_symbol(u._op_label)), who << ": rule in the user's terms differs"); if constexpr (weighted) REQUIRE(ur._weight == u._weight, who << ": weight in the user's terms differs"); }(p);
            shown += " " + show(x); if constexpr (weighted) tot = wadd(tot, Wt{(long long)u._weight});
        }
        std::vector<int> fs; for (auto l : fst) fs.push_back(dec(l));
        REQUIRE(fs == x.st, who << ": final stack is not where the rules lead: " << shown);
        path_ok(f0, x.p, fpath, fst, who + ": path of the final configuration");
        if (shortest) REQUIRE(wcmp(tot, opt->w) == 0, who << ": rules weigh " << wshow(tot) << " but the optimum is " << wshow(opt->w));
        longest = std::max(longest, rules.size() + 1);
    };
    constexpr auto A = Trace_Type::Any;
    { auto in = instance<WT>(k, from_nfa); std::pair<IA, IA> o(IA(in->initial_automaton()), IA(in->final_automaton())); bool r = Solver::post_star_accepts<A>(*in); chk(o, r, [&] { return Solver::get_rule_trace_and_paths<A>(*in); }, "post*"); }
    { auto in = instance<WT>(k, from_nfa); std::pair<IA, IA> o(IA(in->initial_automaton()), IA(in->final_automaton())); bool r = Solver::pre_star_accepts<A>(*in); chk(o, r, [&] { return Solver::get_rule_trace_and_paths<A>(*in); }, "pre*"); }
    { auto in = instance<WT>(k, from_nfa); std::pair<IA, IA> o(IA(in->initial_automaton()), IA(in->final_automaton())); bool r = Solver::dual_search_accepts<A>(*in); chk(o, r, [&] { return Solver::get_rule_trace_and_paths<A, true>(*in); }, "dual*"); }
#if PART == 1
    constexpr auto S = Trace_Type::Shortest;
    auto get = [&](auto& in, bool r, const std::string& who) { return [&, r, who] { auto [t, w] = Solver::get_rule_trace_and_paths<S>(in); if (r && opt) REQUIRE(wcmp(Wt{(long long)w}, opt->w) == 0, who << ": reported weight " << w << " but optimum " << wshow(opt->w)); return t; }; };
    { auto in = instance<WT>(k, from_nfa); std::pair<IA, IA> o(IA(in->initial_automaton()), IA(in->final_automaton())); bool r = Solver::post_star_accepts<S>(*in); chk(o, r, get(*in, r, "post* shortest"), "post* shortest", true); }
    { auto in = instance<WT>(k, from_nfa); std::pair<IA, IA> o(IA(in->initial_automaton()), IA(in->final_automaton())); bool r = Solver::pre_star_accepts<S>(*in); chk(o, r, get(*in, r, "pre* shortest"), "pre* shortest", true); }
#endif
    c.label(!opt ? "unreachable" : longest <= 1 ? "reachable without rules" : longest <= 4 ? "1-3 rules" : "4+ rules");
    if (longest > 1) c.nontrivial();
}
PBT_MAIN(prop)
