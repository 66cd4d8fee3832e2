// Drawings of automata: the graph printed for an automaton, before or after a search, is that automaton.
#include "../solve.hpp"
#include <iostream>
using namespace solve;
#ifndef PART
#define PART 0
#endif
namespace {
struct Drawing { std::map<std::string, bool> node; std::map<std::pair<std::string, std::string>, std::string> edge; std::set<std::string> initial; };
// quoted strings of a line, and the text between them
Drawing read(const std::string& text) {
    Drawing d; std::stringstream in(text); std::string line; bool open = false, closed = false; std::set<std::string> invisible; std::vector<std::pair<std::string, std::string>> plain;
    while (std::getline(in, line)) {
        std::vector<std::string> q, between(1);
        for (size_t i = 0; i < line.size(); ++i) if (line[i] == '"') { q.emplace_back(); for (++i; i < line.size() && line[i] != '"'; ++i) q.back() += line[i]; between.emplace_back(); } else if (!isspace((unsigned char)line[i])) between.back() += line[i];
        if (q.empty()) { if (between[0].rfind("digraph", 0) == 0) open = true; else if (between[0] == "}") closed = true; else REQUIRE(between[0].empty(), "line " << line); continue; }
        REQUIRE(open && !closed, "line outside the graph: " << line);
        if (q.size() == 1) {
            bool dbl = between[1] == "[shape=doublecircle];";
            if (dbl || between[1] == "[shape=circle];") REQUIRE(d.node.emplace(q[0], dbl).second, "state " << q[0] << " is drawn twice");
            else { REQUIRE(between[1].find("style=invis") != std::string::npos, "line " << line); invisible.insert(q[0]); }
        } else if (q.size() == 3) { REQUIRE(between[1] == "->" && between[2] == "[label=", "line " << line); REQUIRE(d.edge.emplace(std::make_pair(q[0], q[1]), q[2]).second, "two edges from " << q[0] << " to " << q[1]); }
        else { REQUIRE(q.size() == 2 && between[1] == "->", "line " << line); plain.emplace_back(q[0], q[1]); }
    }
    REQUIRE(closed, "the graph is closed");
    for (auto& [a, b] : plain) { REQUIRE(a == "I" + b && invisible.count(a), "arrow " << a << " -> " << b << " does not come from an invisible node"); REQUIRE(d.initial.insert(b).second, "two arrows to " << b); }
    REQUIRE(invisible.size() == d.initial.size(), "invisible nodes");
    return d;
}
// "\[A(1), B(2)\] eps(3)": label -> weight text; "" is epsilon; star: all labels
std::map<std::string, std::string> labels(const std::string& t0, bool weighted, bool& star) {
    std::map<std::string, std::string> r; std::string t = t0; size_t i = 0; star = false;
    auto weight = [&]() -> std::string { std::string w; if (!weighted) return w; REQUIRE(i < t.size() && t[i] == '(', "no weight in " << t0); int depth = 0; do { if (t[i] == '(') ++depth; if (t[i] == ')') --depth; w += t[i++]; } while (depth && i < t.size()); return w; };
    auto skip = [&] { while (i < t.size() && t[i] == ' ') ++i; };
    if (t.compare(0, 1, "*") == 0) { star = true; i = 1; }
    else if (t.compare(0, 2, "\\[") == 0) { i = 2; while (true) { skip(); std::string l; while (i < t.size() && t[i] != '(' && t[i] != ',' && t[i] != '\\') l += t[i++]; auto w = weight(); REQUIRE(r.emplace(l, w).second, "label " << l << " twice in " << t0); if (i < t.size() && t[i] == ',') { ++i; continue; } break; } REQUIRE(t.compare(i, 2, "\\]") == 0, "list not closed: " << t0); i += 2; }
    skip(); static const std::string eps = "𝜀";
    if (t.compare(i, eps.size(), eps) == 0) { i += eps.size(); r[""] = weight(); }
    REQUIRE(i == t.size(), "cannot read edge label " << t0 << " at " << i);
    return r;
}
template <class W, Trace_Type tt, class A, class LP, class SP> void same(const std::string& text, const A& a, LP&& lname, SP&& sname, const std::string& what, bool& interesting) {
    constexpr bool weighted = pdaaal::is_weighted<W>; auto d = read(text);
    REQUIRE(d.node.size() == a.states().size(), what << ": " << d.node.size() << " states drawn of " << a.states().size());
    size_t edges = 0; std::set<std::string> ini;
    for (size_t q = 0; q < a.pda().states().size(); ++q) ini.insert(sname(q));
    REQUIRE(d.initial == ini, what << ": control states are the ones with an arrow");
    for (auto& s : a.states()) {
        auto it = d.node.find(sname(s->_id)); REQUIRE(it != d.node.end(), what << ": state " << sname(s->_id) << " is not drawn"); REQUIRE(it->second == s->_accepting, what << ": state " << sname(s->_id) << " drawn accepting: " << it->second);
        for (auto& [to, ls] : s->_edges) {
            ++edges; auto e = d.edge.find({sname(s->_id), sname(to)}); REQUIRE(e != d.edge.end(), what << ": no edge from " << sname(s->_id) << " to " << sname(to));
            bool star; auto got = labels(e->second, weighted, star); std::map<std::string, std::string> want; size_t real = 0;
            for (auto& [l, tw] : ls) {
                bool ep = l == A::epsilon; real += !ep; std::string w;
                if constexpr (weighted) { using SW = pdaaal::internal::solver_weight<W, tt>; std::stringstream o; o << "("; if (!ep && tw.second == SW::max()) o << "-"; else if (!ep && tt == Trace_Type::Longest && tw.second == SW::bottom()) o << "∞"; else if (!ep && W::is_signed && (tt == Trace_Type::Shortest || tt == Trace_Type::ShortestFixedPoint) && tw.second == SW::bottom()) o << "-∞"; else if constexpr (W::is_vector) { bool f = true; for (auto& x : tw.second) { o << (f ? "" : ",") << x; f = false; } } else o << tw.second; o << ")"; w = o.str(); if (w.find("∞") != std::string::npos) interesting = true; }
                want[ep ? std::string() : lname(l)] = w; interesting |= ep;
            }
            if (star) { REQUIRE(real == a.number_of_labels(), what << ": edge drawn with all labels, but has " << real); for (auto w = want.begin(); w != want.end();) if (!w->first.empty()) w = want.erase(w); else ++w; }
            for (auto& [l, w] : want) { auto g = got.find(l); REQUIRE(g != got.end(), what << ": label " << l << " missing on the edge from " << s->_id << " to " << to << ": " << e->second); if constexpr (weighted) { std::string x; for (char ch : g->second) if (ch != ' ' && ch != '[' && ch != ']' && ch != '<' && ch != '>') x += ch; if (!(l.empty() && (x.find("∞") != std::string::npos || x == "(-)"))) REQUIRE(x == w, what << ": weight " << g->second << " drawn instead of " << w << " for " << l); } }
            REQUIRE(got.size() == want.size(), what << ": labels drawn that the edge does not have: " << e->second);
        }
    }
    REQUIRE(d.edge.size() == edges, what << ": " << d.edge.size() << " edges drawn of " << edges);
}
template <class WT, Trace_Type tt, TraceInfoType ti> void go(pbt::Src& s, pbt::Ctx& c, gen::WGen w, const char* nm) {
    using W = pdaaal::weight<WT>; gen::PdsGen g; g.weighted = !std::is_void_v<WT>; g.w = w; auto k = make(s, c, g, nm);
    int eng = (int)s.draw(3); bool interesting = false;
    auto in = instance<WT, ti>(k, false, eng == 1 ? POST : eng == 2 ? PRE : BOTH);
    if constexpr (ti == TraceInfoType::Pair) { if (eng == 1) Solver::post_star_fixed_point_accepts<tt>(*in); else if (eng == 2) Solver::pre_star_fixed_point_accepts<tt>(*in); else (*in).template initialize_product<false, false>(); }
    else { if (eng == 1) Solver::post_star_accepts<tt>(*in); else if (eng == 2) Solver::pre_star_accepts<tt>(*in); else if (s.coin(1, 2)) (*in).initialize_product(); else Solver::dual_search_accepts<tt>(*in); }
    auto& p = (*in).pda(); auto ln = [&](uint32_t l) { return std::string(1, p.get_symbol(l)); }; auto sn = [&](size_t q) { return std::to_string(q); };
    { std::stringstream o; (*in).template automaton_to_dot<tt>(o); same<W, tt>(o.str(), (*in).automaton(), ln, sn, "automaton", interesting); }
    { std::stringstream o; (*in).template product_automaton_to_dot<tt>(o); same<W, tt>(o.str(), (*in).product_automaton(), ln, sn, "product", interesting); }
    { auto& a = s.coin(1, 2) ? (*in).final_automaton() : (*in).initial_automaton(); std::stringstream o; a.template to_dot<tt>(o); same<W, tt>(o.str(), a, [](uint32_t l) { return std::to_string(l); }, sn, "automaton with numbers", interesting); }
    { auto& a = (*in).final_automaton(); std::stringstream o; a.template to_dot<tt>(o, [](std::ostream& o, const uint32_t& l) { o << "l" << l; }, [](std::ostream& o, const size_t& q) { o << "q" << q; }); same<W, tt>(o.str(), a, [](uint32_t l) { return "l" + std::to_string(l); }, [](size_t q) { return "q" + std::to_string(q); }, "automaton with given printers", interesting); }
    c.label(eng == 0 ? "before or dual search" : eng == 1 ? "after post*" : "after pre*"); if (interesting) c.label("epsilon edges or infinite weights"); if (!k.d.rules.empty() && eng) c.nontrivial();
}
// Named states
void named(pbt::Src& s, pbt::Ctx& c) {
    using W = pdaaal::weight<void>; using P = pdaaal::PDA<std::string, W, pdaaal::fut::type::vector, std::string, false>; using A = pdaaal::PAutomaton<std::string, W, std::string, false>;
    gen::PdsGen g; g.weighted = false; auto d = gen::pds(s, g); auto L = gen::lang(s, d, 2); if (!L.automaton) { auto x = gen::sample(s, L.pa); L = gen::point(s, d, x ? *x : Config{0, {0}}); }
    c.note([&] { return "named states\n" + show(d) + gen::show(L); });
    std::unordered_set<std::string> lb; for (int l = 0; l < d.L; ++l) lb.insert("lab" + std::to_string(l)); P p(lb); auto sn = [](size_t q) { return "st" + std::to_string(q * 7); };
    for (int q = 0; q < d.n; ++q) p.insert_state(sn(q));
    for (auto& r : d.rules) { std::vector<std::string> pre; for (int l : r.pre) pre.push_back("lab" + std::to_string(l)); p.add_rule((size_t)r.from, (size_t)r.to, op(r.op), "lab" + std::to_string(std::max(0, r.lab)), r.wild, pre); }
    std::vector<size_t> acc; for (int q = 0; q < d.n; ++q) if (L.pa.acc[q]) acc.push_back(q);
    auto mkA = [&] { A a(p, acc, true); for (int q = L.pa.n; q < L.pa.N; ++q) a.add_state(false, L.pa.acc[q]); for (auto& [f, l, t] : L.edges) a.add_edge(f, t, l); return a; };
    pdaaal::PAutomatonProduct<P, A, W> prod(p, mkA(), mkA()); bool i = false; Solver::post_star_accepts<Trace_Type::Any>(prod);
    std::stringstream o; prod.automaton_to_dot(o); same<W, Trace_Type::None>(o.str(), prod.automaton(), [&](uint32_t l) { return p.get_symbol(l); }, [&](size_t q) { return q < (size_t)d.n ? sn(q) : std::to_string(q); }, "automaton with named states", i);
    std::stringstream o2; prod.product_automaton_to_dot(o2); same<W, Trace_Type::None>(o2.str(), prod.product_automaton(), [&](uint32_t l) { return p.get_symbol(l); }, [&](size_t q) { return q < (size_t)d.n ? sn(q) : std::to_string(q); }, "product with named states", i);
    c.label("named states"); if (!d.rules.empty()) c.nontrivial();
}
void prop(pbt::Src& s, pbt::Ctx& c) {
    gen::WGen u, i; u.hi = 4; i.lo = -3; i.hi = 3;
#if PART == 0
    if (s.coin(1, 4)) named(s, c); else go<void, Trace_Type::Any, TraceInfoType::Single>(s, c, u, "unweighted");
#elif PART == 1
    if (s.coin(1, 2)) go<uint32_t, Trace_Type::Shortest, TraceInfoType::Single>(s, c, u, "uint shortest"); else go<int, Trace_Type::Longest, TraceInfoType::Pair>(s, c, i, "int longest");
#else
    if (s.coin(1, 2)) go<int, Trace_Type::ShortestFixedPoint, TraceInfoType::Pair>(s, c, i, "int shortest"); else { u.dim = 2; u.varlen = true; go<std::vector<uint32_t>, Trace_Type::Shortest, TraceInfoType::Single>(s, c, u, "vector<uint> shortest"); }
#endif
}
}
PBT_MAIN(prop)
