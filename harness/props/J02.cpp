// Sets of configurations read from JSON or text files: exactly what the file says, or rejected; printing and reading again
// changes nothing.
#include "../adapt.hpp"
#include "../jsonpa.hpp"
#include "../retext.hpp"
#include <parsing/PAutomatonJsonParser.h>
#include <parsing/PAutomatonParser.h>
using namespace jp;
namespace {
using Word = std::vector<std::string>;
template <bool named> using pda_t = pdaaal::PDA<std::string, pdaaal::weight<void>, pdaaal::fut::type::vector, std::conditional_t<named, std::string, size_t>, !named>;
template <class P> std::vector<uint32_t> ids(const P& p, const Word& w, bool& known) { std::vector<uint32_t> r; for (auto& l : w) { auto [f, i] = p.exists_label(l); known &= f; r.push_back((uint32_t)i); } return r; }
std::string wshow(const std::string& q, const Word& w) { std::string o = "<" + q.substr(1) + ","; for (auto& l : w) o += " " + (l.empty() ? "eps" : l); return o + ">"; }
// Words to ask for state q
std::vector<std::pair<int, Word>> questions(Src& s, const PdaView& v, const Pa& a, const std::vector<std::string>& labels, bool eps) {
    std::vector<std::pair<int, Word>> r; if (v.states.empty()) return r;
    for (int i = 0; i < 6; ++i) {
        int p = s.draw(v.states.size()); std::string q = token(v, p); Word w;
        for (int j = 0; j < 6; ++j) { std::vector<std::pair<std::string, std::string>> out; for (auto& [f, l, t] : a.tr) if (f == q && (eps || !l.empty())) out.push_back({l, t}); if (out.empty() || s.coin(1, 6)) break; auto [l, t] = s.pick(out); w.push_back(l); q = t; if (a.acc.count(q) && s.coin(1, 2)) break; }
        r.push_back({p, w}); if (!w.empty() && !labels.empty()) { auto x = w; x[s.draw(x.size())] = s.pick(labels); r.push_back({p, x}); w.pop_back(); r.push_back({p, w}); r.push_back({(int)s.draw(v.states.size()), x}); }
    }
    for (int i = 0; i < 3; ++i) { Word w; int k = labels.empty() ? 0 : s.range(0, 4); for (int j = 0; j < k; ++j) w.push_back(s.pick(labels)); r.push_back({(int)s.draw(v.states.size()), w}); }
    return r;
}
template <class A, class P, class In> bool compare(const A& a, const P& p, const PdaView& v, const std::vector<std::pair<int, Word>>& qs, bool eps, const char* what, In&& in) {
    auto st = stored_pa(a, p, v); bool yes = false, no = false;
    for (auto& [q, w] : qs) {
        bool e = in(q, w); (e ? yes : no) = true;
        REQUIRE(st.accepts("#" + std::to_string(q), w) == e, what << ": " << wshow(token(v, q), w) << " is" << (e ? " not" : "") << " in the automaton");
        bool known = true; auto x = ids(p, w, known); if (!eps && known) REQUIRE(a.accepts(q, x) == e, what << ": accepts(" << wshow(token(v, q), w) << ") is " << !e);
    }
    return yes && no;
}
template <bool named> void go(Src& s, pbt::Ctx& c) {
    int n = s.range(1, 4), L = s.range(1, 4); bool text_mode = s.coin(2, 5); auto nm = names(s, n, L, named);
    if (text_mode) for (int l = 0; l < L; ++l) nm.lb[l] = std::vector<std::string>{"A", "b1", "_x", "0"}[l];
    pda_t<named> p; std::vector<int> order; for (int l = 0; l < L; ++l) order.insert(order.begin() + s.draw(order.size() + 1), l); for (int l : order) p.insert_label(nm.lb[l]);
    for (int i = 0; i < n; ++i) { if constexpr (named) p.insert_state(nm.st[i]); else p.insert_state(i); }
    PdaView v{named, nm.st};
    auto round_trip = [&](auto& a, const auto& qs, bool eps, auto&& in) {
        auto dom = a.to_json(); J t = from_dom(dom); Pa z; REQUIRE(read_pa_file(t, v, z), "printed automaton is not of the format: " << dom.dump());
        for (auto& [q, w] : qs) REQUIRE(z.accepts(token(v, q), w) == in(q, w), "printed automaton says something else about " << wshow(token(v, q), w) << ": " << dom.dump());
        std::stringstream again(dom.dump()); auto b = pdaaal::parsing::PAutomatonJsonParser::parse<>(again, p); compare(b, p, v, qs, eps, "read again", in);
    };
    if (!text_mode) {
        J root = J::obj(); root.put("P-automaton", pa_json(s, v, nm.lb, true, 1));
        int mode = s.weighted({5, 4, 2});
        if (mode == 1) { int k = s.range(1, 2); for (int i = 0; i < k; ++i) mutate(s, root, {"P-automaton", "initial", "accepting", "edges", "states"}); }
        bool mp = mode != 2 && s.coin(1, 6); std::string txt = mp ? msgpack(root) : text(root, Style{&s, (int)s.draw(3)});
        if (mode == 2) { int k = s.range(1, 3); for (int i = 0; i < k && !txt.empty(); ++i) { size_t at = s.draw(txt.size()); switch (s.draw(4)) { case 0: txt.erase(at, 1 + s.draw(3)); break; case 1: txt.insert(at, 1, "{}[],:\"1-x "[s.draw(11)]); break; case 2: txt[at] = "{}[],:\"0tn"[s.draw(10)]; break; default: txt.resize(at); } } }
        c.note([&] { std::string o = named ? "named PDA states" : "indexed PDA states"; for (auto& q : nm.st) o += " " + q; return o + (mp ? ", MessagePack of " + text(root) : ": " + txt); });
        J tree = root; bool ok = true, unsure = false;
        if (mode == 2) { ok = nlohmann::json::accept(txt); if (ok) unsure = true; }
        Pa ref; if (mode != 2) ok = read_pa_file(tree, v, ref);
        std::stringstream in(txt); bool got = false; std::string what;
        try {
            auto a = pdaaal::parsing::PAutomatonJsonParser::parse<>(in, p, mp ? nlohmann::json::input_format_t::msgpack : nlohmann::json::input_format_t::json); got = true;
            if (!unsure) {
                REQUIRE(ok, "a malformed file was read as an automaton");
                auto lb = nm.lb; if (s.coin(1, 3)) lb.push_back("new");
                auto qs = questions(s, v, ref, lb, true); bool eps = ref.eps(); auto isin = [&](int q, const Word& w) { return ref.accepts(token(v, q), w); };
                bool both = compare(a, p, v, qs, eps, "as read", isin); round_trip(a, qs, eps, isin);
                if (both) { c.nontrivial(); c.label("accepted and rejected words"); } if (eps) c.label("epsilon edges");
            }
        } catch (pbt::Fail&) { throw; } catch (std::exception& e) { what = e.what(); }
        if (!got) { REQUIRE(!ok || unsure, "a well-formed file was rejected: " << what); REQUIRE(!what.empty(), "rejected without a message"); if (mode) c.nontrivial(); }
        c.label(mode == 0 ? "JSON as written" : mode == 1 ? (ok ? "JSON tree changed, still well-formed" : "JSON tree changed, malformed") : (ok ? "JSON text changed, still JSON" : "text changed, not JSON")); if (mp) c.label("MessagePack");
    } else {
        retext::Printer pr{s, nm.lb}; int k = s.weighted({5, 3, 1}) + 1; std::string t = pr.ws(); std::vector<RPa> refs;
        auto ident = [](const std::string& x) { if (x.empty()) return false; bool dig = true; for (unsigned char ch : x) dig &= isdigit(ch) != 0; if (dig) return true; if (isdigit((unsigned char)x[0])) return false; for (unsigned char ch : x) if (!isalnum(ch) && ch != '_') return false; return true; };
        auto quoted = [](const std::string& x) { std::string o = "\""; for (char ch : x) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; } return o + "\""; };
        auto st = [&](const std::string& x) { return ident(x) && !s.coin(1, 4) ? (!named && s.coin(1, 10) ? "0" + x : x) : quoted(x); };
        int bad = s.weighted({5, 3}); int badat = bad ? s.draw(k) : -1; std::string why;
        for (int i = 0; i < k; ++i) {
            std::vector<size_t> qs; if (s.coin(1, 2)) qs.push_back(s.draw(n)); else { for (int q = 0; q < n; ++q) if (s.coin(1, 2)) qs.push_back(q); if (qs.empty()) qs.push_back(0); }
            ReP r = s.coin(1, 12) ? mk(Re::EmptyString) : retext::re(s, L, s.range(0, 3)); refs.push_back(mkpa(n, qs, to_nfa(r, L)));
            std::vector<std::string> parts; for (auto q : qs) parts.push_back(st(nm.st[q])); if (s.coin(1, 8)) parts.push_back(st(nm.st[qs[0]]));
            for (size_t x = parts.size(); x > 1; --x) std::swap(parts[x - 1], parts[s.draw(x)]);
            int how = i == badat ? s.range(1, 9) : 0;
            if (how == 1) { std::string u = named ? std::vector<std::string>{"nosuch", "\"no such\"", "99", "\"\"", "P0"}[s.draw(5)] : std::vector<std::string>{"9", "\"9\"", "99999999999999999999999", "\"-1\"", "\"0x\"", "name", "\"\""}[s.draw(7)]; parts.insert(parts.begin() + s.draw(parts.size() + 1), u); why = "unknown state"; }
            bool list = parts.size() > 1 || s.coin(1, 3) || how == 2 || how == 3; std::string head;
            if (list) { head = "["; for (size_t x = 0; x < parts.size(); ++x) head += (x ? pr.ws() + "," + pr.ws() : "") + parts[x]; head += how == 2 ? "" : "]"; if (how == 2) why = "list not closed"; if (how == 3) { head = "[]"; why = "empty list"; } } else head = parts[0];
            std::string body = r->k == Re::EmptyString ? pr.ws() : pr.ws() + pr.print(r, 0) + pr.ws();
            if (how == 4) { body += "]"; why = "expression with a stray bracket"; } if (how == 5) { body = "*" + body; why = "expression starts with an operator"; }
            if (i) t += pr.ws() + (how == 6 ? "" : "|") + pr.ws(); if (how == 6) { if (!i) t += "|"; why = "alternatives not separated"; }
            t += (how == 7 ? "" : "<") + pr.ws() + head + pr.ws() + (how == 8 ? "" : ",") + body + (how == 9 ? "" : ">"); if (how >= 7) why = "punctuation missing";
        }
        t += pr.ws(); if (s.coin(1, 10)) t += "# end"; bool wild = !bad && s.coin(1, 5);
        if (wild) { int m = s.range(1, 3); for (int i = 0; i < m && !t.empty(); ++i) { size_t at = s.draw(t.size()); switch (s.draw(3)) { case 0: t.erase(at, 1 + s.draw(3)); break; case 1: t.insert(at, 1, "<>[],|\"*.(#\\1x "[s.draw(16)]); break; default: t.resize(at); } } }
        c.note([&] { std::string o = named ? "named PDA states" : "indexed PDA states"; for (auto& q : nm.st) o += " " + q; return o + (why.empty() ? "" : " (" + why + ")") + " text: " + t; });
        bool got = false; std::string what; bool file = s.coin(1, 16);
        try {
            const char* dir = getenv("PBT_SCRATCH"); std::string fn = std::string(dir ? dir : "/tmp") + "/pa" + std::to_string(getpid()) + ".txt"; struct Rm { std::string f; ~Rm() { if (!f.empty()) unlink(f.c_str()); } } rm{file ? fn : ""};
            if (file) { std::ofstream o(fn, std::ios::binary); o << t; }
            auto a = file ? pdaaal::parsing::PAutomatonParser::parse_file<>(fn, p) : pdaaal::parsing::PAutomatonParser::parse_string<>(t, p); got = true;
            if (!wild) {
                REQUIRE(!bad, "malformed text was read as an automaton (" << why << ")");
                Pa all; for (size_t i = 0; i < refs.size(); ++i) { auto tk = [&](int q) { return q < n ? token(v, q) : "+" + std::to_string(i) + "," + std::to_string(q); }; for (auto& [f, l, to] : refs[i].tr) all.tr.insert({tk(f), nm.lb[l], tk(to)}); for (int q = 0; q < refs[i].N; ++q) if (refs[i].acc[q]) all.acc.insert(tk(q)); }
                auto qs = questions(s, v, all, nm.lb, false); auto isin = [&](int q, const Word& w) { for (auto& x : w) if (std::find(nm.lb.begin(), nm.lb.end(), x) == nm.lb.end()) return false; Config x{q, {}}; for (auto& l : w) x.st.push_back(std::find(nm.lb.begin(), nm.lb.end(), l) - nm.lb.begin()); for (auto& r : refs) if (r.accepts(x)) return true; return false; };
                bool both = compare(a, p, v, qs, false, "as read", isin); round_trip(a, qs, false, isin); if (both) { c.nontrivial(); c.label("accepted and rejected words"); }
            }
        } catch (pbt::Fail&) { throw; } catch (std::exception& e) { what = e.what(); }
        if (!got) { REQUIRE(bad || wild, "well-formed text was rejected: " << what); REQUIRE(!what.empty(), "rejected without a message"); c.nontrivial(); }
        c.label(wild ? "text changed at random" : bad ? "malformed text: " + why : "well-formed text"); if (file) c.label("from a file"); if (refs.size() > 1) c.label("several parts");
    }
    c.label(named ? "named" : "indexed");
}
// The older format: an object of states (an array for indexed ones), each with its edges and whether it is initial or accepting.
template <int kind> void old(Src& s, pbt::Ctx& c) { // 0: names, 1: numbers as names, 2: indexed
    using P = pdaaal::PDA<std::string, pdaaal::weight<void>, pdaaal::fut::type::vector, std::conditional_t<kind == 0, std::string, size_t>, kind == 2>;
    int n = s.range(1, 4), L = s.range(1, 3), extra = s.range(0, 4), N = n + extra; auto nm = names(s, n, L, kind == 0);
    P p; for (int l = 0; l < L; ++l) p.insert_label(nm.lb[l]);
    std::vector<std::string> st; for (int i = 0; i < N; ++i) st.push_back(kind == 0 ? (i < n ? nm.st[i] : "extra " + std::to_string(i)) : kind == 1 ? std::to_string(7 * (i + 1) % 53) : std::to_string(i));
    for (int i = 0; i < n; ++i) { if constexpr (kind == 0) p.insert_state(st[i]); else if constexpr (kind == 1) p.insert_state(std::stoul(st[i])); else p.insert_state(i); }
    PdaView v{kind == 0, std::vector<std::string>(st.begin(), st.begin() + n)}; auto tk = [&](int q) { return (kind == 0 ? "s" : "n") + st[q]; };
    Pa ref; std::vector<J> js; std::vector<int> listed;
    for (int q = 0; q < N; ++q) { if (kind != 2 && q < n && s.coin(1, 5)) continue; listed.push_back(q); }
    for (int q : listed) {
        J o = J::obj(); bool acc = s.coin(1, 3); if (acc) { o.put("accepting", J::boolean(true)); ref.acc.insert(tk(q)); } else if (s.coin(1, 3)) o.put("accepting", J::boolean(false));
        if (q < n) o.put("initial", J::boolean(true)); else if (s.coin(1, 4)) o.put("initial", J::boolean(false));
        J es = J::arr(); int m = s.range(0, 3);
        for (int i = 0; i < m; ++i) { int to = s.pick(listed); if (extra && s.coin(2, 3)) to = n + (int)s.draw(extra); std::string l = s.coin(1, 12) ? std::string() : s.coin(1, 12) ? std::string("new") : s.pick(nm.lb); J e = J::obj(); e.put("to", kind == 2 ? J::num(to) : J::str(st[to])); e.put("label", J::str(l)); if (s.coin(1, 3)) shuffle_keys(s, e); es.add(e); ref.tr.insert({tk(q), l, tk(to)}); }
        o.put("edges", es); if (s.coin(1, 3)) shuffle_keys(s, o); js.push_back(o);
    }
    J states = kind == 2 ? J::arr() : J::obj(); std::vector<size_t> ord; for (size_t i = 0; i < js.size(); ++i) ord.insert(kind == 2 ? ord.end() : ord.begin() + s.draw(ord.size() + 1), i);
    for (auto i : ord) if (kind == 2) states.add(js[i]); else states.put(st[listed[i]], js[i]);
    J body = J::obj(); body.put("states", states); std::string key = s.coin(1, 3) ? "automaton" : "P-automaton"; J root = J::obj(); root.put(key, body); std::string txt = text(root, Style{&s, (int)s.draw(3)});
    c.note([&] { std::string o = "older format, PDA states"; for (int i = 0; i < n; ++i) o += " " + st[i]; return o + ": " + txt; });
    auto lb = nm.lb; if (s.coin(1, 3)) lb.push_back("new"); auto qs = questions(s, v, ref, lb, true); bool eps = ref.eps(); auto isin = [&](int q, const Word& w) { return ref.accepts(token(v, q), w); };
    std::stringstream in(txt); std::optional<std::string> err;
    try { auto a = pdaaal::parsing::PAutomatonJsonParser_Old::parse<>(in, p, key); if (compare(a, p, v, qs, eps, "as read", isin)) { c.nontrivial(); c.label("accepted and rejected words"); } } catch (pbt::Fail&) { throw; } catch (std::exception& e) { err = e.what(); }
    REQUIRE(!err, "a well-formed file was rejected: " << *err);
    c.label("older format"); c.label(kind == 0 ? "named" : kind == 1 ? "numbers as names" : "indexed");
}
void prop(Src& s, pbt::Ctx& c) { if (s.coin(1, 6)) switch (s.draw(3)) { case 0: old<0>(s, c); break; case 1: old<1>(s, c); break; default: old<2>(s, c); } else if (s.coin(1, 2)) go<true>(s, c); else go<false>(s, c); }
}
PBT_MAIN(prop)
