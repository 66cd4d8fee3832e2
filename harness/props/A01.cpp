// P-automata: whichever way a set of configurations is given, the automaton accepts exactly that set; paths it reports are
// accepting paths, shortest ones of least weight.
#include "../solve.hpp"
using namespace solve;
#ifndef PART
#define PART 0
#endif
template <class WT> void go(pbt::Src& s, pbt::Ctx& c) {
    using W = pdaaal::weight<WT>; constexpr bool weighted = !std::is_void_v<WT>;
    bool large = s.coin(1, 25); Pds d; d.n = s.range(1, large ? 40 : 4); d.L = s.range(1, large ? 40 : 4);
    // labels are known from the start, or inserted one by one in any order
    std::vector<int> order; for (int l = 0; l < d.L; ++l) order.insert(order.begin() + s.draw(order.size() + 1), l);
    bool incremental = s.coin(1, 2); std::unordered_set<char> all; if (!incremental) for (int l = 0; l < d.L; ++l) all.insert(lab(l));
    pda_t<WT> p(all); if (incremental) for (int l : order) p.insert_label(lab(l));
    for (int i = 0; i < d.n; ++i) p.insert_state(i);
    auto id = [&](int l) { return (uint32_t)p.exists_label(lab(l)).second; };
    auto enc = [&](const std::vector<int>& w) { std::vector<uint32_t> r; for (int l : w) r.push_back(id(l)); return r; };
    std::vector<RPa> refs; using A = pa_t<WT>; std::unique_ptr<A> a; std::string how;
    std::map<std::tuple<size_t, uint32_t, size_t>, long long> ew; // edge weights, for explicit automata
    int k = s.weighted({5, 1, 1, 1}); k = k == 0 ? 1 : k + 1; bool wts = false;
    for (int i = 0; i < k; ++i) {
        RPa r; std::unique_ptr<A> b;
        switch (s.weighted({3, 2, 2, 3})) {
            case 0: { auto g = gen::lang(s, d, 3, false); auto n = nfa(g.re); n.compile(); b = std::make_unique<A>(p, n, g.states); r = g.pa; how += " nfa:" + gen::show(g); break; }
            case 1: { // regular expression over label ids
                auto g = gen::lang(s, d, 3, false);
                std::function<pdaaal::NFA<uint32_t>(const ReP&)> f = [&](const ReP& e) -> pdaaal::NFA<uint32_t> {
                    using N = pdaaal::NFA<uint32_t>;
                    switch (e->k) {
                        case Re::EmptyString: return N(true); case Re::Any: return N(std::unordered_set<uint32_t>{}, true); case Re::Empty: return N(false);
                        case Re::Set: { std::unordered_set<uint32_t> q; for (int l : e->labels) q.insert(id(l)); return N(std::move(q), e->neg); }
                        case Re::Cat: { auto x = f(e->a); x.concat(f(e->b)); return x; } case Re::Or: { auto x = f(e->a); x.or_extend(f(e->b)); return x; }
                        case Re::Star: { auto x = f(e->a); x.star_extend(); return x; } case Re::Plus: { auto x = f(e->a); x.plus_extend(); return x; }
                        default: { auto x = f(e->a); x.question_extend(); return x; }
                    } };
                auto n = f(g.re); n.compile(); b = std::make_unique<A>(p, n, g.states); r = g.pa; how += " ids:" + gen::show(g); break; }
            case 2: { Config x{(int)s.draw(d.n), {}}; int len = s.range(0, large ? 80 : 4); for (int j = 0; j < len; ++j) x.st.push_back((int)s.draw(d.L)); std::vector<char> st; for (int l : x.st) st.push_back(lab(l)); b = std::make_unique<A>(p, (size_t)x.p, st); r = single(d.n, d.L, x); how += " one:" + show(x); break; }
            default: { // explicit, edges by label sets
                int extra = s.range(1, large ? 40 : 4); r.n = d.n; r.N = d.n + extra; r.L = d.L; r.acc.assign(r.N, 0); std::vector<size_t> acc; bool later = s.coin(1, 2);
                for (int q = 0; q < r.N; ++q) { r.acc[q] = q < d.n ? s.coin(1, 8) : s.coin(1, 2); if (q < d.n && r.acc[q]) acc.push_back(q); }
                b = later ? std::make_unique<A>(p, std::vector<size_t>{}, true) : std::make_unique<A>(p, acc, true); if (later) for (auto q : acc) b->set_state_accepting(q);
                for (int q = d.n; q < r.N; ++q) { size_t nid = b->add_state(false, r.acc[q] && !later); REQUIRE(nid == (size_t)q, "state id"); if (r.acc[q] && later) b->set_state_accepting(q); }
                int m = s.range(1, large ? 100 : 6);
                for (int j = 0; j < m; ++j) {
                    std::vector<size_t> from{(size_t)(s.coin(1, 2) ? s.draw(d.n) : s.draw(r.N))}; size_t to = d.n + s.draw(extra);
                    auto ls = gen::label_subset(s, d.L, !s.coin(1, 6)); bool neg = s.coin(1, 3); auto ids = enc(ls); std::sort(ids.begin(), ids.end());
                    if (k == 1 && s.coin(1, 2) && weighted) { // one weighted edge
                        wts = true; int l = s.draw(d.L); long long w = s.draw(6); if (r.tr.insert({(int)from[0], l, (int)to}).second) { if constexpr (weighted) b->add_edge(from[0], to, id(l), std::make_pair(pdaaal::internal::trace_t(), (WT)w)); ew[{from[0], id(l), to}] = w; }
                        continue;
                    }
                    if (s.coin(1, 3)) { size_t f2 = s.draw(r.N); if (f2 != from[0]) from.push_back(f2); b->add_edges(from, to, neg, ids); } else b->add_edges(from[0], to, neg, ids);
                    for (auto f : from) for (int l = 0; l < d.L; ++l) if ((std::find(ls.begin(), ls.end(), l) != ls.end()) != neg) r.tr.insert({(int)f, l, (int)to});
                }
                how += " explicit(" + std::to_string(r.tr.size()) + " edges)"; break; }
        }
        refs.push_back(r);
        if (!a) a = std::move(b); else a->or_extend(std::move(*b));
    }
    c.note([&] { std::string o; for (int l : order) o += lab(l); return "states " + std::to_string(d.n) + " labels " + (incremental ? o : std::to_string(d.L)) + how; });
    auto in = [&](const Config& x) { for (auto& r : refs) if (r.accepts(x)) return true; return false; };
    // other objects with the same content
    if (s.coin(1, 3)) { a = std::make_unique<A>(std::move(*a), p); c.label("moved"); }
    std::unique_ptr<pdaaal::internal::PAutomaton<W>> copy; const pdaaal::internal::PAutomaton<W>* u = a.get(); if (s.coin(1, 3)) { copy = std::make_unique<pdaaal::internal::PAutomaton<W>>(*a); u = copy.get(); c.label("copied"); }
    std::vector<Config> ask; for (auto& r : refs) for (int i = 0; i < 3; ++i) if (auto x = gen::sample(s, r, large ? 100 : 6)) { ask.push_back(*x); if (!x->st.empty()) { auto y = *x; y.st[s.draw(y.st.size())] = (int)s.draw(d.L); ask.push_back(y); y = *x; y.st.pop_back(); ask.push_back(y); y = *x; y.p = s.draw(d.n); ask.push_back(y); } }
    for (int i = 0; i < 4; ++i) { Config x{(int)s.draw(d.n), {}}; int len = s.range(0, large ? 30 : 4); for (int j = 0; j < len; ++j) x.st.push_back((int)s.draw(d.L)); ask.push_back(x); }
    // The look-up tries the runs on a word one by one: words with very many runs are not asked (speed is not what is checked).
    ask.erase(std::remove_if(ask.begin(), ask.end(), [&](const Config& x) { double total = 0; for (auto& r : refs) { std::map<int, double> cur{{x.p, 1.0}}; for (int l : x.st) { std::map<int, double> nx; for (auto& [f, n] : cur) for (auto it = r.tr.lower_bound({f, l, -1}); it != r.tr.end() && std::get<0>(*it) == f && std::get<1>(*it) == l; ++it) { nx[std::get<2>(*it)] += n; total += n; } cur = std::move(nx); if (total > 1e5) return true; } } return total > 5000; }), ask.end());
    bool yes = false, no = false, nonempty = false; for (auto& r : refs) nonempty |= !r.empty_lang();
    auto path_ok = [&](const Config& x, const std::vector<size_t>& path, const char* who) {
        auto st = enc(x.st); REQUIRE(path.size() == st.size() + 1 && path[0] == (size_t)x.p, who << ": path of " << show(x));
        for (size_t i = 0; i < st.size(); ++i) REQUIRE(u->states()[path[i]]->_edges.contains(path[i + 1], st[i]), who << ": no edge at " << i << " for " << show(x));
        REQUIRE(u->states()[path.back()]->_accepting, who << ": path of " << show(x) << " does not accept");
    };
    for (auto& x : ask) {
        bool e = in(x); auto st = enc(x.st); (e ? yes : no) = true;
        REQUIRE(u->accepts(x.p, st) == e, "accepts " << show(x) << " is " << !e);
        auto path = u->accept_path(x.p, st); REQUIRE(path.empty() == !e, "accept_path of " << show(x)); if (e) path_ok(x, path, "accept_path");
        if constexpr (weighted) {
            auto [sp, w] = u->template accept_path<Trace_Type::Shortest>(x.p, st); REQUIRE(sp.empty() == !e, "shortest accept_path of " << show(x));
            if (e && k == 1) { // least weight over the runs of the reference
                path_ok(x, sp, "shortest accept_path"); std::map<int, long long> cur{{x.p, 0}};
                for (int l : x.st) { std::map<int, long long> nx; for (auto& [f, ll, t] : refs[0].tr) if (ll == l && cur.count(f)) { auto it = ew.find({f, id(l), t}); long long v = cur[f] + (it == ew.end() ? 0 : it->second); auto [jt, fr] = nx.try_emplace(t, v); if (!fr) jt->second = std::min(jt->second, v); } cur = nx; }
                std::optional<long long> best; for (auto& [q, v] : cur) if (refs[0].acc[q] && (!best || v < *best)) best = v;
                REQUIRE(best && *best == (long long)w, "shortest accept_path of " << show(x) << " has weight " << w << " instead of " << *best);
            }
        }
    }
    auto fp = u->find_path(); REQUIRE(fp.is_null() == !nonempty, "find_path finds " << (fp.is_null() ? "nothing" : "something")); REQUIRE(u->has_accepting_state() || !nonempty, "has_accepting_state");
    auto decode = [&](const auto& path) { auto [st, stack] = path.get_path_and_stack(); Config x{(int)st[0], {}}; for (auto l : stack) x.st.push_back(p.get_symbol(l) - 'A'); path_ok(x, st, "find_path"); REQUIRE(in(x), "find_path leads to " << show(x) << ", which is not in the set"); return std::make_pair(st, stack); };
    if (nonempty) decode(fp);
    if constexpr (weighted) {
        auto [sp, w] = u->find_path_shortest(); REQUIRE(sp.is_null() == !nonempty, "find_path_shortest");
        if (nonempty) {
            auto [st, stack] = decode(sp); long long tot = 0; for (size_t i = 0; i < stack.size(); ++i) { auto it = ew.find({st[i], stack[i], st[i + 1]}); if (it != ew.end()) tot += it->second; }
            if (k == 1) { std::vector<long long> dist(refs[0].N, 1 << 30); for (int q = 0; q < d.n; ++q) dist[q] = 0; for (int i = 0; i < refs[0].N; ++i) for (auto& [f, l, t] : refs[0].tr) { auto it = ew.find({f, id(l), t}); dist[t] = std::min(dist[t], dist[f] + (it == ew.end() ? 0 : it->second)); }
                long long best = 1 << 30; for (int q = 0; q < refs[0].N; ++q) if (refs[0].acc[q]) best = std::min(best, dist[q]); REQUIRE(best == (long long)w && tot == best, "find_path_shortest reports " << w << " for a path of weight " << tot << ", the least is " << best); }
        }
    }
    if (large) c.label("large"); c.label(k > 1 ? "union" : "single"); if (incremental) c.label("labels inserted one by one"); if (wts) c.label("weighted edges"); c.label(nonempty ? "non-empty" : "empty set");
    if (yes && no) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) { if (s.coin(1, 2)) go<uint32_t>(s, c); else go<void>(s, c); }
PBT_MAIN(prop)
