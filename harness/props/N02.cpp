// State-level queries on NFAs: epsilon closure, successors, edge labels, against direct definitions on the edges.
#include "../nfa_util.hpp"
using namespace nfau;
using T = char; using NF = N<T>; using S = const NF::state_t*;
static bool useful(S s) { if (s->_accepting) return true; for (auto& e : s->_edges) if (e._negated || !e._symbols.empty()) return true; return false; }
static bool edge_has(const NF::edge_t& e, T l) { bool in = false; for (auto x : e._symbols) in |= x == l; return in != e._negated; }
static std::set<S> closure(std::set<S> s) { std::vector<S> st(s.begin(), s.end()); while (!st.empty()) { S q = st.back(); st.pop_back(); for (auto& e : q->_edges) if (e._epsilon && s.insert(e._destination).second) st.push_back(e._destination); } return s; }
static std::vector<S> keep(const std::set<S>& s) { std::vector<S> r; for (S q : s) if (useful(q)) r.push_back(q); return r; }
static ReP re(pbt::Src& s, int L, int d) { return gen::regex(s, L, d); }
static NF build(const ReP& r) {
    switch (r->k) {
        case Re::EmptyString: return NF(true);
        case Re::Any: return NF(std::unordered_set<T>{}, true);
        case Re::Set: { std::unordered_set<T> u; for (int l : r->labels) u.insert(Lab<T>::of(l)); return NF(std::move(u), r->neg); }
        case Re::Cat: { auto a = build(r->a); a.concat(build(r->b)); return a; }
        case Re::Or: { auto a = build(r->a); a.or_extend(build(r->b)); return a; }
        case Re::Star: { auto a = build(r->a); a.star_extend(); return a; }
        case Re::Plus: { auto a = build(r->a); a.plus_extend(); return a; }
        default: { auto a = build(r->a); a.question_extend(); return a; }
    }
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    int L = s.range(1, 4);
    auto r = re(s, L, s.range(2, 2 + s.size / 25));
    c.note([&] { return "NFA for " + show(r); });
    NF n = build(r); if (s.coin(1, 3)) { NF m(n); n = std::move(m); }
    std::vector<S> before(n.initial().begin(), n.initial().end()); auto bi = closure(std::set<S>(before.begin(), before.end()));
    n.compile();
    { auto ki = keep(bi); REQUIRE(std::vector<S>(n.initial().begin(), n.initial().end()) == ki, "initial states after compile are the closure"); }
    std::vector<S> all; for (auto& q : n.states()) all.push_back(q.get());
    REQUIRE(std::is_sorted(all.begin(), all.end()), "states sorted after compile");
    { std::set<S> acc(n.accepting().begin(), n.accepting().end()); for (S q : all) REQUIRE(q->_accepting == (acc.count(q) > 0), "accepting list agrees with the flags"); }
    size_t eps = 0, lab = 0;
    for (S q : all) for (size_t i = 0; i < q->_edges.size(); ++i) {
        auto& e = q->_edges[i]; eps += e._epsilon; lab += e._negated || !e._symbols.empty();
        REQUIRE(std::find(all.begin(), all.end(), e._destination) != all.end(), "edge leaves the automaton");
        auto& b = e._destination->_backedges; REQUIRE(std::any_of(b.begin(), b.end(), [&](auto& x) { return x.first == q && x.second == i; }), "edge without back edge");
        REQUIRE(std::is_sorted(e._symbols.begin(), e._symbols.end()), "edge symbols sorted");
        size_t cnt = 0; for (int l = 0; l < L; ++l) { bool h = edge_has(e, Lab<T>::of(l)); cnt += h; REQUIRE(e.contains(Lab<T>::of(l)) == h, "edge contains " << l); }
        if (!e._epsilon || !e._symbols.empty() || e._negated) { REQUIRE(e.empty(L) == (cnt == 0), "edge empty(" << L << ")"); REQUIRE(e.wildcard(L) == (cnt == (size_t)L), "edge wildcard(" << L << ")"); }
        auto fe = e.follow_epsilon(); REQUIRE(std::vector<S>(fe.begin(), fe.end()) == keep(closure({e._destination})), "states after the edge");
    }
    for (S q : all) for (auto& b : q->_backedges) REQUIRE(b.first->_edges.at(b.second)._destination == q, "back edge without edge");
    // random state sets
    for (int k = 0; k < 3; ++k) {
        std::vector<S> from; for (S q : all) if (s.coin(1, 3)) from.push_back(q);
        std::set<S> fs(from.begin(), from.end());
        auto f2 = from; NF::follow_epsilon(f2); REQUIRE(f2 == keep(closure(fs)), "follow_epsilon");
        for (int l = 0; l < L + 1; ++l) {
            std::set<S> nx; for (S q : from) for (auto& e : q->_edges) if (edge_has(e, Lab<T>::of(l))) nx.insert(e._destination);
            auto want = keep(closure(nx)); auto got = NF::successor(from, Lab<T>::of(l));
            REQUIRE(got == want, "successor on label " << l);
            for (S t : all) { bool h = std::find(want.begin(), want.end(), t) != want.end(); REQUIRE(NF::has_as_successor(from, Lab<T>::of(l), t) == h, "has_as_successor on label " << l);
                if (from.size() == 1) REQUIRE(NF::has_as_successor(from[0], Lab<T>::of(l), t) == h, "has_as_successor(state)"); }
        }
        std::vector<T> labs; for (int l = 0; l < L; ++l) if (s.coin(2, 3)) labs.push_back(Lab<T>::of(l));
        for (S t : all) if (useful(t)) {
            std::vector<T> want; for (T l : labs) if (NF::has_as_successor(from, l, t)) want.push_back(l);
            REQUIRE(NF::intersect_edge_labels(from, t, labs) == want, "labels leading to a state");
            if (from.size() == 1) REQUIRE(NF::intersect_edge_labels(from[0], t, labs) == want, "labels leading to a state (single)");
        }
    }
    for (S q : all) for (S t : all) { bool h = closure({q}).count(t) > 0; REQUIRE(NF::leads_to_by_epsilon(q, t) == h, "leads_to_by_epsilon"); }
    std::unordered_set<T> al; for (int l = 0; l < L; ++l) al.insert(Lab<T>::of(l));
    for (S q : all) {
        std::set<S> back{q}; std::vector<S> st{q}; std::set<T> want;
        while (!st.empty()) { S x = st.back(); st.pop_back(); for (S p : all) for (auto& e : p->_edges) if (e._destination == x) { for (T l : al) if (edge_has(e, l)) want.insert(l); if (back.insert(p).second) st.push_back(p); } }
        REQUIRE(q->prelabels(al) == std::vector<T>(want.begin(), want.end()), "labels on the paths into a state");
    }
    { // the drawing: one node per state, one arrow per edge with its label, an arrow into every initial state
      bool own = s.coin(1, 2); std::stringstream o; auto pr = [&](std::ostream& o, const T& l) { if (own) o << "<" << l << ">"; else o << l; }; if (own) n.to_dot(o, pr); else n.to_dot(o);
      auto str = [](auto&& f) { std::stringstream x; f(x); return x.str(); }; auto nm = [&](S q) { return str([&](auto& x) { x << q; }); };
      std::multiset<std::string> want, got; std::map<std::string, size_t> into;
      std::string d = o.str(), ln; std::stringstream in(d); bool first = true, closed = false;
      while (std::getline(in, ln)) {
          if (first) { REQUIRE(ln == "digraph NFA {", "first line " << ln); first = false; continue; }
          REQUIRE(!closed || ln.empty(), "text after the drawing"); if (ln == "}") { closed = true; continue; }
          got.insert(ln);
      }
      REQUIRE(closed, "the drawing ends");
      for (S q : all) {
          want.insert("\"" + nm(q) + "\" [shape=" + (q->_accepting ? "double" : "") + "circle];");
          for (auto& e : q->_edges) {
              std::string l; if (e._negated && !e._symbols.empty()) l += "^";
              if (!e._symbols.empty()) { l += "\\["; for (size_t i = 0; i < e._symbols.size(); ++i) l += (i ? ", " : "") + str([&](auto& x) { pr(x, e._symbols[i]); }); l += "\\]"; }
              if (e._symbols.empty() && e._negated) l += "*";
              if (e._epsilon) { if (!l.empty()) l += " "; l += "\xF0\x9D\x9C\x80"; }
              want.insert("\"" + nm(q) + "\" -> \"" + nm(e._destination) + "\" [ label=\"" + l + "\"];");
          }
      }
      for (auto& w : want) { auto it = got.find(w); REQUIRE(it != got.end(), "missing in the drawing: " << w << "\n" << d); got.erase(it); }
      for (S q : n.initial()) { bool f = false; for (auto it = got.begin(); it != got.end(); ++it) if (it->find("-> \"" + nm(q) + "\"") != std::string::npos) { got.erase(it); f = true; break; } REQUIRE(f, "no arrow into an initial state in the drawing"); }
      for (auto& g : got) REQUIRE(g.find("->") == std::string::npos, "an arrow that is no edge: " << g); }
    c.label(eps ? "with epsilon edges" : "no epsilon edges");
    if (eps && lab > 1) c.nontrivial();
}
PBT_MAIN(prop)
