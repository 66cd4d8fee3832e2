// The JSON format of reachability instances: generator and an independent reader of the tree.
#pragma once
#include "jsonpa.hpp"
namespace jp {
struct Inst { Sys sys; Pa I, F; bool unsure = false; PdaView view() const { return {sys.named, sys.states}; } };
inline bool read_inst(const J& root, Inst& x, bool& huge) {
    if (!root.is(J::Obj) || root.o.size() != 1 || root.count("instance") != 1) return false;
    auto& v = *root.get("instance"); if (!v.is(J::Arr) || v.a.size() != 4) return false;
    auto& h = v.a[0]; if (!h.is(J::Obj) || h.o.size() != 2 || h.count("state-names") != 1 || h.count("weight-type") != 1 || !h.get("state-names")->is(J::Bool)) return false;
    x.sys.named = h.get("state-names")->b; auto& w = *h.get("weight-type"); long long len = -1;
    if (w.is(J::Str)) { if (w.s == "none") x.sys.wk = NONE; else if (w.s == "uint") x.sys.wk = UINT; else if (w.s == "int") x.sys.wk = INT; else return false; }
    else if (w.is(J::Arr)) {
        if (w.a.empty() || w.a.size() > 2 || !w.a[0].is(J::Str)) return false;
        if (w.a[0].s == "uint") x.sys.wk = VUINT; else if (w.a[0].s == "int") x.sys.wk = VINT; else if (w.a[0].s == "none") { x.sys.wk = NONE; x.unsure = true; } else return false;
        if (w.a.size() == 2) { if (!w.a[1].unsigned_()) return false; len = w.a[1].is(J::Big) ? -2 : w.a[1].i; }
    } else return false;
    if (!read_body(v.a[1], x.sys, huge)) return false;
    if (len != -1) for (auto& r : x.sys.rules) if ((long long)r.w.size() != len) x.unsure = true;   // weights of another length than announced: rejected, or as written
    if (huge) return false;                                                                          // (such cases are not used)
    if (!read_pa_body(v.a[2], x.view(), x.I, false) || !read_pa_body(v.a[3], x.view(), x.F, false)) return false;
    return true;
}
inline J inst_json(Src& s, const Pds& d, const Names& nm, bool named, WK wk, bool free) {
    J h = J::obj(); h.put("state-names", J::boolean(named));
    if (wk == NONE || wk == UINT || wk == INT) h.put("weight-type", J::str(wname(wk)));
    else { J a = J::arr(); a.add(J::str(wk == VUINT ? "uint" : "int")); size_t len = d.rules.empty() ? 2 : d.rules[0].w.size(); bool same = true; for (auto& r : d.rules) same &= r.w.size() == len; if (same && s.coin(1, 2)) a.add(J::num((long long)len)); h.put("weight-type", a); }
    if (s.coin(1, 3)) shuffle_keys(s, h);
    J a = J::arr(); a.add(h); J b = pda_json(s, d, nm, named, wk); a.add(b);
    Sys y{named, wk}; bool huge = false; read_body(b, y, huge); PdaView v{named, y.states};
    for (int i = 0; i < 2; ++i) a.add(pa_json(s, v, nm.lb, free, s.coin(1, 3)));
    J root = J::obj(); root.put("instance", a); return root;
}
} // namespace jp
