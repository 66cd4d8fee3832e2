// NFA helpers that only use the public NFA interface (no ptrie, no absl).
#pragma once
#include "gen.hpp"
#include <pdaaal/NFA.h>
namespace nfau {
using namespace model;
template <class T> struct Lab { static T of(int l) { return static_cast<T>(l * 7 + 3); } };      // order-preserving, not dense
template <> struct Lab<char> { static char of(int l) { return static_cast<char>('A' + l); } };
template <> struct Lab<std::string> { static std::string of(int l) { return std::string(1 + l % 2, static_cast<char>('a' + l)); } };
template <class T> using N = pdaaal::NFA<T>;
template <class T> bool accepts(const N<T>& n, const std::vector<int>& w) {
    using S = const typename N<T>::state_t*;
    std::vector<S> st(n.initial().begin(), n.initial().end());
    for (int l : w) st = N<T>::successor(st, Lab<T>::of(l));
    for (S s : st) if (s->_accepting) return true;
    return false;
}
inline std::string wshow(const std::vector<int>& w) { std::string s = "\""; for (int l : w) s += char('A' + l); return s + "\""; }
// Every word up to length len over L labels (label L-1 may be one that no expression mentions): same answer as the reference.
template <class T> void same_language(const N<T>& n, const RNfa& r, int L, int len, const std::string& what) {
    using S = const typename N<T>::state_t*;
    std::vector<int> w;
    std::function<void(const std::vector<S>&, const std::set<int>&)> rec = [&](const std::vector<S>& a, const std::set<int>& b) {
        bool x = false, y = false;
        for (S s : a) x |= s->_accepting; for (int q : b) y |= r.acc[q];
        REQUIRE(x == y, what << ": word " << wshow(w) << (y ? " is in the language but rejected" : " is not in the language but accepted"));
        if ((int)w.size() == len) return;
        for (int l = 0; l < L; ++l) {
            w.push_back(l);
            auto na = N<T>::successor(a, Lab<T>::of(l)); auto nb = r.step(b, l);
            if (!na.empty() || !nb.empty()) rec(na, nb);
            w.pop_back();
        }
    };
    rec(std::vector<S>(n.initial().begin(), n.initial().end()), std::set<int>(r.init.begin(), r.init.end()));
}
} // namespace nfau
