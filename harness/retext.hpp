// Regular expressions as text: a printer with random spacing, comments and bracketing, and a generator of what text can say.
#pragma once
#include "gen.hpp"
namespace retext {
using namespace model;
struct Printer {
    pbt::Src& s; const std::vector<std::string>& names; bool busy = false;
    std::string ws(bool must = false) {
        std::string o; int k = s.weighted({6, 3, 1, 1});
        for (int i = 0; i < k || (must && o.empty()); ++i) switch (s.weighted({5, 1, 1, 1})) { case 0: o += " "; break; case 1: o += "\n"; break; case 2: o += "\t"; break; default: o += s.coin(1, 2) ? "# note ) ] | *\n" : "#\n"; busy = true; }
        return o;
    }
    std::string atom(const std::string& t) { return "(" + ws() + t + ws() + ")"; }
    // level 0: alternative, 1: sequence, 2: with unary operator, 3: value
    std::string print(const ReP& r, int lvl) {
        std::string t; int have = 3;
        switch (r->k) {
            case Re::Any: t = "."; break;
            case Re::Set: { auto l = r->labels; if (s.coin(1, 6)) l.push_back(l[0]); t = r->neg ? "[^" : "["; for (size_t i = 0; i < l.size(); ++i) t += (i ? ws() + "," + ws() : "") + names[l[i]]; t += "]"; break; }
            case Re::Cat: { t = print(r->a, 1) + ws() + print(r->b, r->b->k == Re::Cat && s.coin(1, 2) ? 2 : 1); have = 1; break; }
            case Re::Or: { t = print(r->a, 0) + ws() + "|" + ws() + print(r->b, s.coin(1, 2) ? 1 : 0); have = 0; break; }
            case Re::Star: t = print(r->a, 3) + "*"; have = 2; break;
            case Re::Plus: t = print(r->a, 3) + "+"; have = 2; break;
            case Re::Opt: t = print(r->a, 3) + "?"; have = 2; break;
            default: break;
        }
        if (have < lvl || s.coin(1, 12)) t = atom(t);
        return t;
    }
};
inline ReP re(pbt::Src& s, int L, int depth) {
    if (depth <= 0 || s.coin(1, 5)) switch (s.weighted({5, 2, 1})) { case 0: return mkset(gen::label_subset(s, L, true), false); case 1: return mkset(gen::label_subset(s, L, true), true); default: return mk(Re::Any); }
    switch (s.weighted({5, 4, 2, 2, 2})) {
        case 0: { auto a = re(s, L, depth - 1); return mk(Re::Cat, a, re(s, L, depth - 1)); }
        case 1: { auto a = re(s, L, depth - 1); return mk(Re::Or, a, re(s, L, depth - 1)); }
        case 2: return mk(Re::Star, re(s, L, depth - 1));
        case 3: return mk(Re::Plus, re(s, L, depth - 1));
        default: return mk(Re::Opt, re(s, L, depth - 1));
    }
}
} // namespace retext
