// JSON trees that keep key order and duplicate keys, rendered with random white space, escapes and key order; MessagePack too.
#pragma once
#include "pbt.hpp"
namespace jx {
using pbt::Src;
struct J {
    enum K { Null, Bool, Int, Float, Str, Arr, Obj, Big } k = Null;   // Big: unsigned number beyond the signed range, text in s
    bool b = false; long long i = 0; double d = 0; std::string s;
    std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    J(); J(const J&); J(J&&); J& operator=(const J&); J& operator=(J&&); ~J();
    static J null() { return J{}; }
    static J boolean(bool x) { J j; j.k = Bool; j.b = x; return j; }
    static J num(long long x) { J j; j.k = Int; j.i = x; return j; }
    static J flt(double x) { J j; j.k = Float; j.d = x; return j; }
    static J str(std::string x) { J j; j.k = Str; j.s = std::move(x); return j; }
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    static J big(std::string t) { J j; j.k = Big; j.s = std::move(t); return j; }
    J& add(J x) { a.push_back(std::move(x)); return *this; }
    J& put(std::string key, J x);
    bool is(K x) const { return k == x; }
    bool unsigned_() const { return (k == Int && i >= 0) || k == Big; }
    int count(const std::string& key) const;
    const J* get(const std::string& key) const;
};
inline J::J() = default; inline J::J(const J&) = default; inline J::J(J&&) = default; inline J::~J() = default;
inline J& J::operator=(const J&) = default; inline J& J::operator=(J&&) = default;
inline J& J::put(std::string key, J x) { o.emplace_back(std::move(key), std::move(x)); return *this; }
inline int J::count(const std::string& key) const { int n = 0; for (auto& [x, v] : o) n += x == key; return n; }
inline const J* J::get(const std::string& key) const { for (auto& [x, v] : o) if (x == key) return &v; return nullptr; }
struct Style { Src* s = nullptr; int ws = 0; };                       // ws 0: compact; otherwise random white space
inline void sp(std::string& out, const Style& t) { if (t.s && t.ws && t.s->coin(1, 3)) { static const char* w[] = {" ", "\n", "\t", "  ", "\r\n"}; out += w[t.s->draw(5)]; } }
inline void render_str(std::string& out, const std::string& v, const Style& t) {
    out += '"';
    for (unsigned char c : v) {
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else if (c < 0x80 && t.s && t.ws == 2 && t.s->coin(1, 8)) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += (char)c;
    }
    out += '"';
}
inline void render(std::string& out, const J& j, const Style& t) {
    switch (j.k) {
        case J::Null: out += "null"; break;
        case J::Bool: out += j.b ? "true" : "false"; break;
        case J::Int: out += std::to_string(j.i); break;
        case J::Float: { char b[40]; snprintf(b, sizeof b, "%.6f", j.d); out += b; break; }
        case J::Big: out += j.s; break;
        case J::Str: render_str(out, j.s, t); break;
        case J::Arr: { out += '['; bool f = true; for (auto& x : j.a) { if (!f) out += ','; f = false; sp(out, t); render(out, x, t); sp(out, t); } if (j.a.empty()) sp(out, t); out += ']'; break; }
        case J::Obj: { out += '{'; bool f = true; for (auto& [k, x] : j.o) { if (!f) out += ','; f = false; sp(out, t); render_str(out, k, t); sp(out, t); out += ':'; sp(out, t); render(out, x, t); sp(out, t); } if (j.o.empty()) sp(out, t); out += '}'; break; }
    }
}
inline std::string text(const J& j, const Style& t = {}) { std::string o; render(o, j, t); return o; }
// MessagePack (no Big, no floats needed beyond double)
inline void pack(std::string& o, const J& j) {
    auto be = [&](uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += (char)(v >> (8 * i)); };
    auto pstr = [&](const std::string& s) { if (s.size() < 32) o += (char)(0xa0 | s.size()); else { o += (char)0xda; be(s.size(), 2); } o += s; };
    switch (j.k) {
        case J::Null: o += (char)0xc0; break;
        case J::Bool: o += (char)(j.b ? 0xc3 : 0xc2); break;
        case J::Int: if (j.i >= 0) { if (j.i < 128) o += (char)j.i; else { o += (char)0xcf; be((uint64_t)j.i, 8); } } else if (j.i >= -32) o += (char)(0xe0 | (j.i + 32)); else { o += (char)0xd3; be((uint64_t)j.i, 8); } break;
        case J::Big: o += (char)0xcf; be(strtoull(j.s.c_str(), nullptr, 10), 8); break;
        case J::Float: { o += (char)0xcb; uint64_t u; memcpy(&u, &j.d, 8); be(u, 8); break; }
        case J::Str: pstr(j.s); break;
        case J::Arr: if (j.a.size() < 16) o += (char)(0x90 | j.a.size()); else { o += (char)0xdc; be(j.a.size(), 2); } for (auto& x : j.a) pack(o, x); break;
        case J::Obj: if (j.o.size() < 16) o += (char)(0x80 | j.o.size()); else { o += (char)0xde; be(j.o.size(), 2); } for (auto& [k, x] : j.o) { pstr(k); pack(o, x); } break;
    }
}
inline std::string msgpack(const J& j) { std::string o; pack(o, j); return o; }
inline void shuffle_keys(Src& s, J& j) { if (j.is(J::Obj)) for (size_t i = j.o.size(); i > 1; --i) std::swap(j.o[i - 1], j.o[i - 1 - s.draw(i)]); }
// A random value, for unknown keys and mutations
inline J any(Src& s, int depth) {
    switch (s.draw(depth > 0 ? 9 : 7)) {
        case 0: return J::num(s.range(0, 5)); case 1: return J::str(std::vector<std::string>{"", "A", "p0", "*", "x", "pop", "states", "pda"}[s.draw(8)]);
        case 2: return J::null(); case 3: return J::boolean(s.coin(1, 2)); case 4: return J::num(-s.range(1, 5)); case 5: return J::flt(1.5); case 6: return J::big("18446744073709551615");
        case 7: { J j = J::arr(); int n = s.range(0, 3); for (int i = 0; i < n; ++i) j.add(any(s, depth - 1)); return j; }
        default: { J j = J::obj(); int n = s.range(0, 3); for (int i = 0; i < n; ++i) j.put(std::vector<std::string>{"a", "to", "pda", "states", "weight", "A"}[s.draw(6)], any(s, depth - 1)); return j; }
    }
}
// All nodes in document order
inline void nodes(J& j, std::vector<J*>& v) { v.push_back(&j); for (auto& x : j.a) nodes(x, v); for (auto& [k, x] : j.o) nodes(x, v); }
// One random change of the tree (which may or may not keep it well-formed); keys: names used by the format
inline void mutate(Src& s, J& root, const std::vector<std::string>& keys) {
    std::vector<J*> v; nodes(root, v); J& j = *v[s.draw(v.size())];
    switch (s.draw(9)) {
        case 0: j = any(s, 1); break;
        case 1: if (!j.o.empty()) j.o.erase(j.o.begin() + s.draw(j.o.size())); else if (!j.a.empty()) j.a.erase(j.a.begin() + s.draw(j.a.size())); else j = any(s, 1); break;
        case 2: if (j.is(J::Obj)) { auto e = std::make_pair(keys[s.draw(keys.size())], any(s, 1)); j.o.insert(j.o.begin() + s.draw(j.o.size() + 1), e); } else if (j.is(J::Arr)) j.a.insert(j.a.begin() + s.draw(j.a.size() + 1), any(s, 1)); else j = any(s, 1); break;
        case 3: if (!j.o.empty()) { auto e = j.o[s.draw(j.o.size())]; j.o.insert(j.o.begin() + s.draw(j.o.size() + 1), e); } else if (!j.a.empty()) { auto e = j.a[s.draw(j.a.size())]; j.a.push_back(e); } else j = any(s, 1); break;
        case 4: if (!j.o.empty()) j.o[s.draw(j.o.size())].first = keys[s.draw(keys.size())]; else j = any(s, 1); break;
        case 5: { J x = J::arr(); x.add(j); j = x; break; }
        case 6: if (j.is(J::Arr) && j.a.size() == 1) { J x = j.a[0]; j = x; } else { J x = J::obj(); x.put(keys[s.draw(keys.size())], j); j = x; } break;
        case 7: { J x = *v[s.draw(v.size())]; j = x; break; }
        default: if (j.is(J::Int)) j = s.coin(1, 2) ? J::num(-1 - j.i) : J::num(j.i + (1LL << s.range(0, 40))); else if (j.is(J::Str)) j = J::str(j.s + "x"); else j = any(s, 1); break;
    }
}
} // namespace jx
