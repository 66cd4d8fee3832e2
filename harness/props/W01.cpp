// Laws of the weight domains that the searches rely on: order, addition, neutral and extreme elements.
#include "../pbt.hpp"
#include <pdaaal/Weight.h>
using namespace pdaaal;
// exact reference value of a weight: tuple of 128-bit integers (or doubles scaled: only multiples of 1/4 are generated)
using I = __int128;
template <class T> struct Gen;
template <class T> requires std::is_integral_v<T> struct Gen<T> {
    static constexpr bool sgn = std::numeric_limits<T>::is_signed;
    // finite weights whose sums of three stay far away from the extremes
    static T safe(pbt::Src& s) { constexpr long long m = std::min<long long>(1000, std::numeric_limits<T>::max() / 8); long long x = s.draw(m + 1); if (!s.coin(1, 2)) x %= 4; return static_cast<T>(sgn && s.coin(1, 2) ? -x : x); }
    static T wide(pbt::Src& s) { // any value, often near the ends of the range
        constexpr T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::lowest(); T d = static_cast<T>(s.draw(5));
        switch (s.weighted({3, 2, 2, 1, 1})) { case 0: return safe(s); case 1: return hi - d; case 2: return lo + d; case 3: return static_cast<T>(hi / 2 + d); default: return static_cast<T>(s.draw64()); }
    }
    static std::vector<I> val(T x) { return {static_cast<I>(x)}; }
    static std::string show(T x) { return std::to_string(static_cast<long long>(x)); }
    static bool eq(T a, T b) { return a == b; }
    static T trunc(T x) { return x; }
};
template <> struct Gen<double> {
    static double safe(pbt::Src& s) { double x = s.draw(401) / 4.0; return s.coin(1, 2) ? -x : x; }
    static double wide(pbt::Src& s) { return s.coin(1, 4) ? (s.coin(1, 2) ? 1e300 : -1e300) : safe(s); }
    static std::vector<I> val(double x) { return {static_cast<I>(x * 4)}; }
    static std::string show(double x) { return std::to_string(x); }
    static bool eq(double a, double b) { return a == b; }
};
template <class E, size_t N> struct Gen<std::array<E, N>> {
    using T = std::array<E, N>;
    static T safe(pbt::Src& s) { T t{}; for (auto& x : t) x = Gen<E>::safe(s); return t; }
    static T wide(pbt::Src& s) { T t{}; for (auto& x : t) x = Gen<E>::wide(s); return t; }
    static std::vector<I> val(const T& t) { std::vector<I> v; for (auto x : t) v.push_back(Gen<E>::val(x)[0]); return v; }
    static std::string show(const T& t) { std::string r = "["; for (auto x : t) r += Gen<E>::show(x) + " "; return r + "]"; }
    static bool eq(const T& a, const T& b) { return a == b; }
};
template <class E> struct Gen<std::vector<E>> {
    using T = std::vector<E>;
    static T safe(pbt::Src& s) { T t(s.draw(4)); for (auto& x : t) x = Gen<E>::safe(s); return t; }
    static T wide(pbt::Src& s) { T t(s.draw(4)); for (auto& x : t) x = Gen<E>::wide(s); return t; }
    static std::vector<I> val(const T& t) { std::vector<I> v; for (auto x : t) v.push_back(Gen<E>::val(x)[0]); while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
    static std::string show(const T& t) { std::string r = "["; for (auto x : t) r += Gen<E>::show(x) + " "; return r + "]"; }
    static bool eq(const T& a, const T& b) { return val(a) == val(b); } // missing elements are zero
};
static int cmp(std::vector<I> a, std::vector<I> b) { size_t n = std::max(a.size(), b.size()); a.resize(n, 0); b.resize(n, 0); return a < b ? -1 : b < a ? 1 : 0; }
static std::vector<I> sum(std::vector<I> a, std::vector<I> b) { size_t n = std::max(a.size(), b.size()); a.resize(n, 0); b.resize(n, 0); for (size_t i = 0; i < n; ++i) a[i] += b[i]; while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
template <class T> struct scalar { using type = T; };
template <class E, size_t N> struct scalar<std::array<E, N>> { using type = E; };
template <class E> struct scalar<std::vector<E>> { using type = E; };

template <class T, bool maximize> void laws(pbt::Src& s, pbt::Ctx& c, const char* nm) {
    using W = details::weight_impl<T, maximize>; using G = Gen<T>; using E = typename scalar<T>::type;
    T a = G::safe(s), b = s.coin(1, 4) ? a : G::safe(s), d = G::safe(s);
    c.note([&] { return std::string(nm) + (maximize ? " (maximised)" : " (minimised)") + " a=" + G::show(a) + " b=" + G::show(b) + " c=" + G::show(d); });
    auto va = G::val(a), vb = G::val(b), vd = G::val(d);
    auto strip = [](std::vector<I> v) { if constexpr (W::is_vector) while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
    auto num = [&](const std::vector<I>& x, const std::vector<I>& y) { int r = cmp(x, y); return maximize ? -r : r; };
    // addition is exact
    REQUIRE(cmp(G::val(W::add(a, b)), sum(va, vb)) == 0, "a+b = " << G::show(W::add(a, b)));
    REQUIRE(G::eq(W::add(a, b), W::add(b, a)), "a+b == b+a");
    REQUIRE(G::eq(W::add(W::add(a, b), d), W::add(a, W::add(b, d))), "(a+b)+c == a+(b+c)");
    REQUIRE(G::eq(W::add(a, W::zero()), a) && G::eq(W::add(W::zero(), a), a), "a+0 == a");
    REQUIRE(cmp(G::val(W::zero()), {}) == 0, "zero");
    // the order is the lexicographic order of the tuples
    int n = num(va, vb);
    if (n < 0) REQUIRE(W::less(a, b), "a before b");
    if (n > 0) REQUIRE(!W::less(a, b), "a not before b");
    REQUIRE(!W::less(a, a), "irreflexive");
    REQUIRE(!(W::less(a, b) && W::less(b, a)), "asymmetric");
    if (W::less(a, b) && W::less(b, d)) REQUIRE(W::less(a, d), "transitive");
    if (n < 0) REQUIRE(W::less(W::add(a, d), W::add(b, d)), "a<b implies a+c<b+c");
    // extreme elements
    const T mx = W::max(), bt = W::bottom();
    REQUIRE(!W::less(mx, a), "nothing is worse than max"); REQUIRE(W::less(a, mx), "finite before max");
    REQUIRE(!W::less(a, bt) || num(va, G::val(bt)) == 0, "nothing is better than bottom");
    REQUIRE(W::add(a, mx) == mx && W::add(mx, a) == mx && W::add(mx, mx) == mx, "max is absorbing: " << G::show(W::add(a, mx)));
    if constexpr (maximize || std::numeric_limits<E>::is_signed) {
        REQUIRE(W::less(bt, a), "bottom before finite"); REQUIRE(W::less(bt, mx) && !W::less(mx, bt), "bottom before max");
        REQUIRE(W::add(a, bt) == bt && W::add(bt, a) == bt && W::add(bt, bt) == bt, "bottom is absorbing over finite weights: " << G::show(W::add(a, bt)));
    } else {
        REQUIRE(cmp(G::val(bt), {}) == 0, "without negative weights nothing is better than zero");
    }
    // near the ends of the range sums saturate: no wrap-around
    if constexpr (std::is_integral_v<T>) {
        T x = G::wide(s), y = G::wide(s);
        c.note([&] { return "x=" + G::show(x) + " y=" + G::show(y); });
        auto vx = G::val(x)[0], vy = G::val(y)[0]; T r = W::add(x, y);
        bool fx = x != mx && x != bt, fy = y != mx && y != bt;
        if (x == mx || y == mx) REQUIRE(r == mx, "max absorbs");
        else if (fx && fy) {
            I e = vx + vy;
            bool rep = e <= static_cast<I>(std::numeric_limits<T>::max()) && e >= static_cast<I>(std::numeric_limits<T>::lowest());
            if (rep && static_cast<T>(e) != mx && static_cast<T>(e) != bt) REQUIRE(static_cast<I>(r) == e, "x+y = " << G::show(r));
            else if (vx >= 0 && vy >= 0) REQUIRE(static_cast<I>(r) >= vx && static_cast<I>(r) >= vy, "the sum of x and y wrapped around: " << G::show(r));
            else if (vx <= 0 && vy <= 0) REQUIRE(static_cast<I>(r) <= vx && static_cast<I>(r) <= vy, "the sum of x and y wrapped around: " << G::show(r));
            REQUIRE(r != mx, "a sum of finite weights is not 'unreachable'");
            c.label(rep ? "sum representable" : "sum beyond the range");
        }
        REQUIRE(W::add(y, x) == r, "x+y == y+x");
        T z = G::wide(s);
        REQUIRE(!(W::less(x, y) && W::less(y, x)), "asymmetric (wide)"); if (W::less(x, y) && W::less(y, z)) REQUIRE(W::less(x, z), "transitive (wide)");
        if (x != y) REQUIRE(W::less(x, y) || W::less(y, x), "total");
    }
    // tuples near the ends of the range: element by element, except that an unbounded most significant element makes the whole unbounded
    if constexpr (!std::is_arithmetic_v<T> && std::is_integral_v<E>) {
        T x = G::wide(s), y = G::wide(s), z = G::wide(s); using WE = details::weight_impl<E, maximize>;
        c.note([&] { return "x=" + G::show(x) + " y=" + G::show(y); });
        T r = W::add(x, y);
        auto at = [](const T& t, size_t i) -> E { return i < t.size() ? t[i] : E(0); };
        bool part = false; for (auto* t : {&x, &y}) for (E e : *t) part |= e == WE::max(); // one element worse than everything: only the whole tuple being so is a weight
        if (x == mx || y == mx) REQUIRE(r == mx, "max absorbs");
        else if (!part) {
            size_t len = std::max(x.size(), y.size()); std::vector<E> want; for (size_t i = 0; i < len; ++i) want.push_back(i < x.size() && i < y.size() ? WE::add(x[i], y[i]) : i < x.size() ? x[i] : y[i]);
            bool unb = (maximize || std::numeric_limits<E>::is_signed) && !want.empty() && want[0] == WE::bottom();
            if (unb) { REQUIRE(r == bt, "the most significant element of the sum is unbounded, the sum is not: " << G::show(r)); c.label("tuple sum unbounded"); }
            else for (size_t i = 0; i < std::max(len, (size_t)r.size()); ++i) REQUIRE(at(r, i) == (i < want.size() ? want[i] : E(0)), "element " << i << " of x+y = " << G::show(r));
        }
        REQUIRE(G::eq(W::add(y, x), r), "x+y == y+x (wide)");
        REQUIRE(!(W::less(x, y) && W::less(y, x)), "asymmetric (wide)"); REQUIRE(!W::less(x, x), "irreflexive (wide)"); if (W::less(x, y) && W::less(y, z)) REQUIRE(W::less(x, z), "transitive (wide)");
    }
    if (s.coin(1, 8) && sizeof(E) > 1) {
        std::stringstream o; W::print(o, a); std::stringstream w;
        if constexpr (std::is_arithmetic_v<T>) w << a; else { w << "["; bool f = true; for (auto x : a) { if (!f) w << ","; f = false; w << x; } w << "]"; }
        REQUIRE(o.str() == w.str(), "printed " << o.str());
    }
    c.label(n == 0 ? "a equals b" : "a differs from b");
    if (num(va, {}) != 0 && num(vb, {}) != 0) c.nontrivial();
}
template <class T> void both(pbt::Src& s, pbt::Ctx& c, const char* nm) { c.label(nm); if (s.coin(1, 2)) laws<T, true>(s, c, nm); else laws<T, false>(s, c, nm); }
static void prop(pbt::Src& s, pbt::Ctx& c) {
    switch (s.draw(14)) {
        case 0: case 1: both<int>(s, c, "int"); break; case 2: case 3: both<uint32_t>(s, c, "uint32"); break; case 4: both<int64_t>(s, c, "int64"); break; case 5: both<uint64_t>(s, c, "uint64"); break;
        case 6: both<int16_t>(s, c, "int16"); break; case 7: both<uint8_t>(s, c, "uint8"); break; case 8: both<double>(s, c, "double"); break;
        case 9: both<std::array<int, 3>>(s, c, "array<int,3>"); break; case 10: both<std::array<uint32_t, 2>>(s, c, "array<uint,2>"); break;
        case 11: both<std::vector<int>>(s, c, "vector<int>"); break; case 12: both<std::vector<uint32_t>>(s, c, "vector<uint>"); break; default: both<std::vector<double>>(s, c, "vector<double>"); break;
    }
}
PBT_MAIN(prop)
