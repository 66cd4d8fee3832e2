// The JSON format of pushdown systems: generator and an independent reader of the tree.
#pragma once
#include "jsonx.hpp"
#include "gen.hpp"
namespace jp {
using namespace jx; using namespace model;
enum WK { NONE, UINT, INT, VUINT, VINT };
inline const char* wname(WK w) { static const char* n[] = {"none", "uint", "int", "vector of uint", "vector of int"}; return n[w]; }
// What a file says: rules over names. pre "*" is any label; op: to, kind, label.
struct R { std::string from, pre, to; Op op; std::string lab; Wt w; auto key() const { return std::tie(from, pre, to, op, lab, w); } bool operator<(const R& o) const { return key() < o.key(); } bool operator==(const R& o) const { return key() == o.key(); } };
struct Sys { bool named; WK wk; std::vector<std::string> states, labels; std::set<R> rules;
    void state(const std::string& q) { if (std::find(states.begin(), states.end(), q) == states.end()) states.push_back(q); }
    void label(const std::string& l) { if (std::find(labels.begin(), labels.end(), l) == labels.end()) labels.push_back(l); }
    int sid(const std::string& q) const { return (int)(std::find(states.begin(), states.end(), q) - states.begin()); }
    int lid(const std::string& l) const { return (int)(std::find(labels.begin(), labels.end(), l) - labels.begin()); }
};
inline std::optional<long long> scalar(const J& j, bool sign) {
    if (!j.is(J::Int)) return std::nullopt;
    long long lo = sign ? -2147483647LL : 0, hi = sign ? 2147483646LL : 4294967294LL;
    if (j.i < lo || j.i > hi) return std::nullopt;
    return j.i;
}
constexpr int MAX_INDEX = 5000;       // larger state numbers make large systems; they are not generated
inline bool has_huge(const J& j) { if (j.is(J::Int) && j.i > MAX_INDEX) return true; for (auto& x : j.a) if (has_huge(x)) return true; for (auto& [k, x] : j.o) if (!(k == "weight" && !x.is(J::Obj) && (!x.is(J::Arr) || std::all_of(x.a.begin(), x.a.end(), [](const J& e) { return !e.is(J::Obj) && !e.is(J::Arr); }))) && k != "accepting" && k != "edges" && k != "initial" && has_huge(x)) return true; return false; }
inline bool read_rule(const J& j, Sys& s, const std::string& from, const std::string& pre, bool& huge) {
    if (!j.is(J::Obj)) return false;
    R r{from, pre, "", NOOP, "", {}}; bool to = false, op = false, w = false;
    for (auto& [k, v] : j.o) {
        if (k == "to") { if (to) return false; to = true; if (s.named) { if (!v.is(J::Str)) return false; r.to = v.s; s.state(v.s); } else { if (!v.unsigned_()) return false; if (v.is(J::Big)) return false; if (v.i > MAX_INDEX) { huge = true; r.to = "?"; } else r.to = std::to_string(v.i); } }
        else if (k == "pop" || k == "swap" || k == "push") {
            if (op || !v.is(J::Str)) return false; op = true;
            if (k == "pop") { if (!v.s.empty()) return false; r.op = POP; }
            else if (k == "swap" && pre == "*" && v.s == "*") r.op = NOOP;
            else { r.op = k == "push" ? PUSH : SWAP; r.lab = v.s; s.label(v.s); }
        }
        else if (k == "weight" && s.wk != NONE) {
            if (w) return false; w = true; bool sign = s.wk == INT || s.wk == VINT;
            if (s.wk == UINT || s.wk == INT) { auto x = scalar(v, sign); if (!x) return false; r.w = {*x}; }
            else { if (!v.is(J::Arr)) return false; for (auto& e : v.a) { auto x = scalar(e, sign); if (!x) return false; r.w.push_back(*x); } }
        } else return false;
    }
    if (!to || !op || (s.wk != NONE && !w)) return false;
    s.rules.insert(r); return true;
}
inline bool read_state(const J& j, Sys& s, const std::string& from, bool& huge) {
    if (!j.is(J::Obj)) return false;
    for (auto& [k, v] : j.o) {
        if (k != "*") s.label(k);
        if (v.is(J::Arr)) { for (auto& x : v.a) if (!read_rule(x, s, from, k, huge)) return false; }
        else if (!read_rule(v, s, from, k, huge)) return false;
    }
    return true;
}
// The value of "pda" (or the second element of an instance)
inline bool read_body(const J& j, Sys& s, bool& huge) {
    if (!j.is(J::Obj) || j.count("states") != 1) return false;
    auto& st = *j.get("states");
    if (s.named) { if (!st.is(J::Obj)) return false; for (auto& [k, v] : st.o) { s.state(k); if (!read_state(v, s, k, huge)) return false; } }
    else {
        if (!st.is(J::Arr)) return false; size_t n = st.a.size();
        for (size_t i = 0; i < st.a.size(); ++i) if (!read_state(st.a[i], s, std::to_string(i), huge)) return false;
        for (auto& r : s.rules) if (r.to != "?") n = std::max(n, (size_t)std::stoul(r.to) + 1);
        s.states.clear(); for (size_t i = 0; i < n; ++i) s.states.push_back(std::to_string(i));
    }
    return true;
}
inline bool read_file(const J& j, Sys& s, bool& huge) { return j.is(J::Obj) && j.count("pda") == 1 && read_body(*j.get("pda"), s, huge); }

struct Names { std::vector<std::string> st, lb; };
inline Names names(Src& s, int n, int L, bool named) {
    static const std::vector<std::string> sn{"p0", "p1", "q", "r_2", "S", "p10"}, sx{"two words", "a\"b", "\\", "\xc3\xa9tat", "5", "0", "<p>", "to"}, ln{"A", "B", "C", "l1", "xy"}, lx{"a b", "\"", "7", "\xce\xbb", "pop", "to", "a,b", "^"};
    Names r; bool odd = s.coin(1, 4);
    for (int i = 0; i < n; ++i) r.st.push_back(!named ? std::to_string(i) : odd && i < (int)sx.size() ? sx[i] : i < (int)sn.size() ? sn[i] : "s" + std::to_string(i));
    odd = s.coin(1, 4); for (int i = 0; i < L; ++i) r.lb.push_back(odd && i < (int)lx.size() ? lx[i] : i < (int)ln.size() ? ln[i] : "L" + std::to_string(i));
    return r;
}
inline J weight_json(const Wt& w, WK wk) { if (wk == UINT || wk == INT) return J::num(w.empty() ? 0 : w[0]); J a = J::arr(); for (auto x : w) a.add(J::num(x)); return a; }
inline J rule_json(Src& s, const Rule& r, const Names& nm, bool named, WK wk, const std::string& pre) {
    J j = J::obj(); j.put("to", named ? J::str(nm.st[r.to]) : J::num(r.to));
    switch (r.op) { case POP: j.put("pop", J::str("")); break; case SWAP: j.put("swap", J::str(nm.lb[r.lab])); break; case PUSH: j.put("push", J::str(nm.lb[r.lab])); break; case NOOP: j.put("swap", J::str(pre)); break; }
    if (wk != NONE) j.put("weight", weight_json(r.w, wk));
    if (s.coin(1, 2)) shuffle_keys(s, j);
    return j;
}
// The "pda" value for a model system. A no-operation rule for given labels is written as a swap to the same label.
inline J pda_json(Src& s, const Pds& d, const Names& nm, bool named, WK wk) {
    std::vector<std::vector<std::pair<std::string, std::vector<J>>>> st(d.n);
    for (auto& r : d.rules) {
        std::vector<std::string> pre; if (r.wild) pre.push_back("*"); else for (int l : r.pre) pre.push_back(nm.lb[l]);
        for (auto& p : pre) {
            auto& v = st[r.from]; auto it = std::find_if(v.begin(), v.end(), [&](auto& x) { return x.first == p; });
            bool fresh = it == v.end() || s.coin(1, 10);   // sometimes the label is a key twice
            if (fresh) { v.push_back({p, {}}); it = v.end() - 1; }
            it->second.push_back(rule_json(s, r, nm, named, wk, p));
        }
    }
    J states = named ? J::obj() : J::arr(); int last = d.n;
    for (int q = 0; q < last; ++q) {
        J o = J::obj();
        for (auto& [p, v] : st[q]) { if (v.size() == 1 && !s.coin(1, 4)) o.put(p, v[0]); else { J a = J::arr(); for (auto& x : v) a.add(x); o.put(p, a); } }
        if (s.coin(1, 3)) shuffle_keys(s, o);
        if (named) states.put(nm.st[q], o); else states.add(o);
    }
    if (named && s.coin(1, 2)) shuffle_keys(s, states);
    J j = J::obj(); j.put("states", states);
    if (s.coin(1, 8)) { j.put("note", any(s, 2)); shuffle_keys(s, j); }
    return j;
}
inline gen::PdsGen wgen(Src& s, WK wk) { gen::PdsGen g; g.weighted = wk != NONE; if (wk == INT || wk == VINT) { g.w.lo = -4; g.w.hi = 4; } if (wk == VUINT || wk == VINT) { g.w.dim = 3; g.w.varlen = true; } return g; }
inline std::vector<std::string> keys() { return {"pda", "states", "to", "pop", "swap", "push", "weight", "*", "A", "p0", "extra"}; }
} // namespace jp
