// The JSON format of P-automata: generator and an independent reader of the tree.
#pragma once
#include "jsonpda.hpp"
#include <nlohmann/json.hpp>
namespace jp {
// An automaton over tokens: "s<name>" a state given by name, "n<number>" a state given by number. "" is the epsilon label.
struct Pa {
    std::set<std::string> acc; std::set<std::tuple<std::string, std::string, std::string>> tr;
    bool accepts(const std::string& from, const std::vector<std::string>& w) const {
        std::set<std::string> cur{from};
        for (auto& l : w) { std::set<std::string> nx; for (auto& [f, x, t] : tr) if (x == l && cur.count(f)) nx.insert(t); cur = nx; }
        for (auto& q : cur) if (acc.count(q)) return true;
        return false;
    }
    bool eps() const { for (auto& [f, x, t] : tr) if (x.empty()) return true; return false; }
};
struct PdaView { bool named; std::vector<std::string> states; };   // states of the PDA: names, or "0", "1", ... for indexed ones
inline std::string token(const PdaView& v, int q) { return (v.named ? "s" : "n") + v.states[q]; }
inline std::optional<std::string> token(const PdaView& v, const J& j) {
    if (j.is(J::Str)) { if (!v.named) return std::nullopt; return "s" + j.s; }
    if (j.unsigned_()) return "n" + (j.is(J::Big) ? j.s : std::to_string(j.i));
    return std::nullopt;
}
inline bool in_pda(const PdaView& v, const std::string& tok) { return tok[0] == (v.named ? 's' : 'n') && std::find(v.states.begin(), v.states.end(), tok.substr(1)) != v.states.end(); }
inline bool read_pa_body(const J& j, const PdaView& v, Pa& a, bool need_initial) {
    if (!j.is(J::Obj) || j.count("accepting") != 1 || j.count("edges") != 1 || (need_initial && j.count("initial") != 1)) return false;
    for (auto& [k, x] : j.o) {
        if (!x.is(J::Arr)) return false;
        if (k == "initial") { for (auto& e : x.a) { auto t = token(v, e); if (!t || !in_pda(v, *t)) return false; } }
        else if (k == "accepting") { for (auto& e : x.a) { auto t = token(v, e); if (!t) return false; a.acc.insert(*t); } }
        else if (k == "edges") { for (auto& e : x.a) { if (!e.is(J::Arr) || e.a.size() != 3 || !e.a[1].is(J::Str)) return false; auto f = token(v, e.a[0]), t = token(v, e.a[2]); if (!f || !t) return false; a.tr.insert({*f, e.a[1].s, *t}); } }
        else return false;
    }
    return true;
}
inline bool read_pa_file(const J& j, const PdaView& v, Pa& a) { return j.is(J::Obj) && j.o.size() == 1 && j.count("P-automaton") == 1 && read_pa_body(*j.get("P-automaton"), v, a, true); }
// A random automaton; into: edges may lead into PDA states and epsilon edges and new labels may occur (search input may not).
inline J pa_json(Src& s, const PdaView& v, const std::vector<std::string>& labels, bool free, int initial) {
    int n = v.states.size(), extra = s.range(free ? 0 : 1, 4); std::vector<J> st; std::vector<std::string> used;
    for (int i = 0; i < n; ++i) st.push_back(v.named ? J::str(v.states[i]) : J::num(i));
    static const std::vector<std::string> pool{"x", "y1", "end", "a \"b", "0", "7", "", "\xc3\xa9", "loop"}; static const std::vector<long long> nums{0, 1, 2, 5, 100, 4294967296LL};
    int kind = v.named ? s.weighted({3, 2, 2}) : 1;                           // names, numbers, both
    for (int i = 0; i < extra; ++i) {
        if (kind == 0 || (kind == 2 && s.coin(1, 2))) { std::string x = s.pick(pool); while (std::find(v.states.begin(), v.states.end(), x) != v.states.end()) x += "'"; st.push_back(J::str(x)); }
        else if (s.coin(1, 20)) st.push_back(J::big("18446744073709551615")); else st.push_back(J::num((v.named ? 0 : n) + s.pick(nums)));
    }
    J acc = J::arr(), edges = J::arr(), init = J::arr();
    int k = s.range(0, 3); for (int i = 0; i < k; ++i) acc.add(s.coin(1, 6) || (int)st.size() == n ? st[s.draw(st.size())] : st[n + s.draw(st.size() - n)]);
    int m = s.range(0, 8);
    for (int i = 0; i < m; ++i) {
        J e = J::arr(); e.add(s.coin(1, 2) && n ? st[s.draw(n)] : st[s.draw(st.size())]);
        if (free && s.coin(1, 15)) e.add(J::str("")); else if (free && s.coin(1, 15)) e.add(J::str("new")); else if (labels.empty()) e.add(J::str("first")); else e.add(J::str(labels[s.draw(labels.size())]));
        e.add((free && s.coin(1, 5)) || (int)st.size() == n ? st[s.draw(st.size())] : st[n + s.draw(st.size() - n)]);
        edges.add(e);
    }
    for (int i = 0; i < n; ++i) if (s.coin(4, 5)) init.add(st[i]);
    J j = J::obj(); if (initial) j.put("initial", init); j.put("accepting", acc); j.put("edges", edges); if (s.coin(1, 2)) shuffle_keys(s, j);
    return j;
}
template <class A, class P> Pa stored_pa(const A& a, const P& p, const PdaView& v) {
    Pa r; auto nm = [&](size_t q) -> std::string { return q < v.states.size() ? "#" + std::to_string(q) : "+" + std::to_string(q); };
    for (auto& st : a.states()) { if (st->_accepting) r.acc.insert(nm(st->_id)); for (auto& [to, ls] : st->_edges) for (auto& [l, tw] : ls) r.tr.insert({nm(st->_id), l == A::epsilon ? std::string() : p.get_symbol(l), nm(to)}); }
    return r;
}
inline J from_dom(const nlohmann::json& d) {
    switch (d.type()) {
        case nlohmann::json::value_t::null: return J::null(); case nlohmann::json::value_t::boolean: return J::boolean(d.get<bool>());
        case nlohmann::json::value_t::number_integer: return J::num(d.get<long long>()); case nlohmann::json::value_t::number_unsigned: { auto u = d.get<uint64_t>(); return u > (1ULL << 62) ? J::big(std::to_string(u)) : J::num((long long)u); }
        case nlohmann::json::value_t::number_float: return J::flt(d.get<double>()); case nlohmann::json::value_t::string: return J::str(d.get<std::string>());
        case nlohmann::json::value_t::array: { J a = J::arr(); for (auto& x : d) a.add(from_dom(x)); return a; }
        default: { J o = J::obj(); for (auto& [k, v] : d.items()) o.put(k, from_dom(v)); return o; }
    }
}
} // namespace jp
