// Weight functions: a linear combination evaluates to sum of coefficient times value; an ordered function to the tuple of its parts.
#include "../pbt.hpp"
#include <pdaaal/Weight.h>
using namespace pdaaal;
template <class W> using F = linear_weight_function<W, int, W>;
template <class W> struct Tree { int kind; W k; std::vector<std::pair<W, Tree<W>>> kids; };
template <class W> W coef(pbt::Src& s) {
    if constexpr (std::is_floating_point_v<W>) { W x = s.draw(41) / W(4); return s.coin(1, 2) ? -x : x; }
    else { W x = static_cast<W>(s.draw(8)); if (s.coin(1, 4)) x = static_cast<W>(s.draw(sizeof(W) > 4 ? 0xffffffffu : 5000)); return std::numeric_limits<W>::is_signed && s.coin(1, 2) ? static_cast<W>(-x) : x; }
}
template <class W> Tree<W> gen(pbt::Src& s, int depth) {
    if (depth == 0 || s.coin(1, 3)) return {static_cast<int>(s.draw(3)), coef<W>(s), {}};
    Tree<W> t{3, 0, {}}; int n = s.range(0, 4); for (int i = 0; i < n; ++i) { W c = std::is_floating_point_v<W> || s.coin(1, 2) ? coef<W>(s) : static_cast<W>(s.draw(4)); t.kids.emplace_back(c, gen<W>(s, depth - 1)); } return t;
}
template <class W> F<W> build(const Tree<W>& t) {
    W k = t.k;
    switch (t.kind) {
        case 0: return F<W>(std::function<W(int, W)>([k](int, W) { return k; }));
        case 1: return F<W>(std::function<W(int, W)>([k](int a, W) { return static_cast<W>(a) * k; }));
        case 2: return F<W>(std::function<W(int, W)>([k](int a, W b) { return b + k; }));
        default: { std::vector<std::pair<W, F<W>>> v; for (auto& [c, x] : t.kids) v.emplace_back(c, build(x)); return F<W>(v); }
    }
}
template <class W> W eval(const Tree<W>& t, int a, W b) {
    switch (t.kind) { case 0: return t.k; case 1: return static_cast<W>(a) * t.k; case 2: return b + t.k; default: { W r = 0; for (auto& [c, x] : t.kids) r = static_cast<W>(r + c * eval(x, a, b)); return r; } }
}
template <class W> std::string show(const Tree<W>& t) { std::stringstream o; o << std::fixed; switch (t.kind) { case 0: o << +t.k; break; case 1: o << "a*" << +t.k; break; case 2: o << "b+" << +t.k; break; default: o << "("; for (auto& [c, x] : t.kids) o << " + " << +c << "*" << show(x); o << ")"; } return o.str(); }
template <class W> void go(pbt::Src& s, pbt::Ctx& c, const char* nm) {
    using U = std::conditional_t<std::is_integral_v<W>, std::make_unsigned<W>, std::type_identity<W>>;
    std::vector<Tree<W>> ts; std::vector<F<W>> fs; int n = s.range(0, 3); for (int i = 0; i < n; ++i) { ts.push_back(gen<W>(s, s.range(0, 2))); fs.push_back(build(ts.back())); }
    ordered_weight_function<W, int, W> f(fs);
    c.note([&] { std::string r = std::string(nm) + ":"; for (auto& t : ts) r += " " + show(t) + ";"; return r; });
    for (int k = 0; k < 3; ++k) {
        int a = s.range(0, 9); W b = coef<W>(s);
        auto got = f(a, b); REQUIRE(got.size() == ts.size(), "one element per function");
        for (size_t i = 0; i < ts.size(); ++i) { W w = eval(ts[i], a, b); REQUIRE(got[i] == w, "part " << i << " at (" << a << "," << +b << ") is " << +got[i] << " instead of " << +w); REQUIRE(fs[i](a, b) == w, "function " << i); }
    }
    bool comb = false; for (auto& t : ts) comb |= t.kids.size() > 1; c.label(comb ? "with combinations" : "plain"); if (comb) c.nontrivial();
}
static void prop(pbt::Src& s, pbt::Ctx& c) { switch (s.draw(4)) { case 0: go<int64_t>(s, c, "int64"); break; case 1: go<uint32_t>(s, c, "uint32"); break; case 2: go<uint64_t>(s, c, "uint64"); break; default: go<double>(s, c, "double"); } }
PBT_MAIN(prop)
