// Sets and maps of composite keys numbered by insertion: histories against std::map, for every supported kind of key.
#include "../pbt.hpp"
#include <string>
#include <pdaaal/utils/ptrie_interface.h>
using namespace pdaaal::utils;
using pbt::Src;
template <class T, class = void> struct Gen;
template <class T> struct Gen<T, std::enable_if_t<std::is_integral_v<T>>> { static T of(Src& s) { switch (s.weighted({4, 1, 1})) { case 0: return (T)s.draw(4); case 1: return (T)(s.draw64() >> s.draw(60)); default: return (T)(~(T)0 - (T)s.draw(3)); } } };
template <> struct Gen<std::string> { static std::string of(Src& s) { std::string r; int n = s.range(0, 4); for (int i = 0; i < n; ++i) r += std::vector<char>{'a', 'b', '\0', (char)0xff}[s.draw(4)]; return r; } };
template <class T> struct Gen<std::vector<T>> { static std::vector<T> of(Src& s) { std::vector<T> r; int n = s.coin(1, 12) ? s.range(0, 300) : s.range(0, 3); for (int i = 0; i < n; ++i) r.push_back(Gen<T>::of(s)); return r; } };
template <class... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> of(Src& s) { return std::tuple<A...>{Gen<A>::of(s)...}; } };
template <class... A> struct Gen<std::variant<A...>> { static std::variant<A...> of(Src& s) { std::variant<A...> v; size_t i = s.draw(sizeof...(A)), j = 0; ((j++ == i ? (void)(v.template emplace<A>(Gen<A>::of(s))) : void()), ...); return v; } };
enum class Color : uint8_t { red, green, blue };
template <> struct Gen<Color> { static Color of(Src& s) { return (Color)s.draw(3); } };
struct Pod { uint16_t a; uint16_t b; bool operator<(const Pod& o) const { return std::tie(a, b) < std::tie(o.a, o.b); } bool operator==(const Pod& o) const { return a == o.a && b == o.b; } };
template <> struct Gen<Pod> { static Pod of(Src& s) { return {(uint16_t)s.draw(3), (uint16_t)s.draw(300)}; } };
template <class K> void hist(Src& s, pbt::Ctx& c, const char* what) {
    ptrie_set<K> st; ptrie_map<K, int> mp; std::map<K, size_t> ids; std::vector<K> keys; std::map<K, int> data; bool large = s.coin(1, 30); int again = 0, n = s.range(1, large ? 400 : 24);
    std::vector<K> seen;
    auto key = [&] { if (!seen.empty() && s.coin(1, 3)) return s.pick(seen); seen.push_back(Gen<K>::of(s)); return seen.back(); };
    c.note([&] { return std::string(what) + ", " + std::to_string(n) + " operations"; });
    for (int i = 0; i < n; ++i) {
        K k = key();
        switch (s.weighted({3, 1, 1, 1})) {
            case 0: {
                auto [f, id] = st.insert(k); auto [f2, id2] = mp.insert(k); auto it = ids.find(k);
                REQUIRE(f == (it == ids.end()) && f2 == f, what << ": insertion reported new=" << f);
                if (f) { REQUIRE(id == keys.size() && id2 == id, what << ": ids are consecutive, got " << id); ids[k] = id; keys.push_back(k); mp.get_data(id) = data[k] = i; } else { ++again; REQUIRE(id == it->second && id2 == id, what << ": id " << id << " instead of " << it->second); }
                break; }
            case 1: { auto [e, id] = st.exists(k); auto [e2, id2] = mp.exists(k); REQUIRE(e == (ids.count(k) > 0) && e2 == e, what << ": exists " << e); if (e) REQUIRE(id == ids[k] && id2 == id, what << ": id"); break; }
            case 2: if (!keys.empty()) { size_t id = s.draw(keys.size()); REQUIRE(st.at(id) == keys[id] && mp.at(id) == keys[id], what << ": key " << id << " does not come back as it was put in"); REQUIRE(mp.get_data(id) == data[keys[id]], what << ": data"); } break;
            default: { int& d = mp[k]; if (!ids.count(k)) { REQUIRE(st.insert(k).second == keys.size(), "ids"); ids[k] = keys.size(); keys.push_back(k); d = data[k] = 1000 + i; } else REQUIRE(d == data[k], what << ": data through []"); }
        }
    }
    REQUIRE(st.size() == keys.size() && mp.size() == keys.size(), what << ": size " << st.size());
    for (size_t id = 0; id < keys.size(); ++id) { REQUIRE(st.at(id) == keys[id] && mp.at(id) == keys[id], what << ": key " << id << " does not come back as it was put in"); auto [e, j] = st.exists(keys[id]); REQUIRE(e && j == id, what << ": key " << id << " is not found"); REQUIRE(mp.get_data(id) == data[keys[id]], what << ": data"); }
    // iteration over chosen ids
    std::vector<size_t> pickv; int m = s.range(0, 5); for (int i = 0; i < m && !keys.empty(); ++i) pickv.push_back(s.draw(keys.size()));
    const auto& cst = st; ptrie_access_iterator b(pickv.cbegin(), &cst), e(pickv.cend(), &cst); size_t i = 0;
    REQUIRE((size_t)(e - b) == pickv.size(), "length of the range"); for (auto it = b; it != e; ++it, ++i) { REQUIRE(*it == keys[pickv[i]], what << ": iteration"); REQUIRE(b[(long)i] == keys[pickv[i]] && *(b + (long)i) == keys[pickv[i]], what << ": random access"); REQUIRE(it < e && b <= it && !(it > e) && it == b + (long)i, "order of iterators"); REQUIRE(!(it < it) && !(it > it) && it <= it && it >= it && e > it && e >= it && !(it >= e) && !(e <= it), "order of iterators (2)"); } REQUIRE(i == pickv.size(), "iteration length"); 
    if (!pickv.empty()) { auto it = e; --it; REQUIRE(*it == keys[pickv.back()] && *it-- == keys[pickv.back()], "backwards"); auto j = b; REQUIRE(*j++ == keys[pickv[0]], "post-increment"); j = b; j += (long)pickv.size(); REQUIRE(j == e, "+="); j -= 1; REQUIRE(*j == keys[pickv.back()] && *(e - 1) == *j && *(0 + b) == keys[pickv[0]], "-="); }
    c.label(what); if (large) c.label("long history"); if (keys.size() > 2 && again) c.nontrivial();
}
static void prop(Src& s, pbt::Ctx& c) {
    using std::tuple; using std::vector; using std::string; using std::variant;
    switch (s.draw(15)) {
        case 0: hist<size_t>(s, c, "size_t"); break; case 1: hist<int>(s, c, "int"); break; case 2: hist<char>(s, c, "char"); break; case 3: hist<string>(s, c, "string"); break;
        case 4: hist<vector<uint32_t>>(s, c, "vector"); break; case 5: hist<Pod>(s, c, "struct"); break; case 6: hist<Color>(s, c, "enum"); break;
        case 7: hist<tuple<uint8_t, uint32_t>>(s, c, "tuple"); break;
        case 8: hist<tuple<vector<uint8_t>, vector<uint8_t>>>(s, c, "tuple of two vectors"); break;
        case 9: hist<tuple<int, tuple<vector<uint16_t>, char>, vector<int>>>(s, c, "nested tuple"); break;
        case 10: hist<vector<tuple<uint8_t, uint16_t>>>(s, c, "vector of tuples"); break;
        case 11: hist<variant<uint8_t, uint16_t, vector<uint8_t>>>(s, c, "variant"); break;
        case 12: hist<tuple<variant<uint8_t, vector<uint8_t>>, vector<uint8_t>>>(s, c, "tuple of variant and vector"); break;
        case 13: hist<variant<vector<tuple<uint8_t, uint8_t>>>>(s, c, "variant with one option"); break;
        default: hist<variant<tuple<uint8_t, vector<uint8_t>>, tuple<vector<uint8_t>, uint8_t>, bool>>(s, c, "variant of tuples");
    }
}
PBT_MAIN(prop)
