// Pushdown systems in JSON: a file is read as what it says, or rejected; printing and reading again changes nothing.
#include "../adapt.hpp"
#include "../jsonstored.hpp"
#include <parsing/PdaJsonParser.h>
using namespace jp;
namespace {
#ifndef PART
#define PART 0
#endif
template <class WT, bool named> void go(Src& s, pbt::Ctx& c, WK wk) {
    using W = pdaaal::weight<WT>;
    auto g = wgen(s, wk); Pds d; bool large = s.coin(1, 40); if (large) { g.max_states = 25; g.max_labels = 20; g.max_rules = 120; int keep = s.size; s.size = 400; d = gen::pds(s, g); s.size = keep; } else d = gen::pds(s, g);
    if (s.coin(1, 5)) d.n += s.range(1, 2);                                      // states without rules
    long long over = s.coin(1, 3) ? 1 : 0;                                       // also just out of range
    if (wk != NONE && s.coin(1, 6)) for (auto& r : d.rules) for (auto& x : r.w) if (s.coin(1, 3)) x = wk == UINT || wk == VUINT ? 4294967294LL + over - (long long)s.draw(3) : s.coin(1, 2) ? 2147483646LL + over - (long long)s.draw(3) : -2147483647LL - over + (long long)s.draw(3);
    auto nm = names(s, d.n, d.L, named);
    J root = J::obj(); root.put("pda", pda_json(s, d, nm, named, wk)); if (s.coin(1, 6)) { root.put("about", any(s, 3)); shuffle_keys(s, root); }
    int mode = s.weighted({5, 4, 2}), changes = 0;                              // as written, tree changed, text changed
    if (mode == 1) { changes = s.range(1, 2); for (int i = 0; i < changes; ++i) mutate(s, root, keys()); }
    bool mp = mode != 2 && s.coin(1, 6); std::string txt = mp ? msgpack(root) : text(root, Style{&s, (int)s.draw(3)});
    if (mode == 2) { int k = s.range(1, 3); for (int i = 0; i < k && !txt.empty(); ++i) { size_t at = s.draw(txt.size()); switch (s.draw(4)) { case 0: txt.erase(at, 1 + s.draw(3)); break; case 1: txt.insert(at, 1, "{}[],:\"1-x "[s.draw(11)]); break; case 2: txt[at] = "{}[],:\"0tn"[s.draw(10)]; break; default: txt.resize(at); } } }
    Sys y{named, wk}; bool huge = false, ok = mode == 2 ? nlohmann::json::accept(txt) : read_file(root, y, huge);
    c.note([&] { return std::string(wname(wk)) + (named ? ", named states" : ", indexed states") + (mp ? ", MessagePack of " + text(root) : ": " + txt); });
    bool unsure = false;
    if (mode == 2 && ok) { J t = from_dom(nlohmann::json::parse(txt)); Sys z{named, wk}; bool h2 = false; bool v = read_file(t, z, h2); huge |= h2; unsure = true; if (h2) throw pbt::Discard{}; (void)v; }
    if (!named && mode != 2 && (huge || has_huge(root))) throw pbt::Discard{};
    if (!named && mode == 2) { int run = 0; for (char ch : txt) { run = isdigit((unsigned char)ch) ? run + 1 : 0; if (run > 4) throw pbt::Discard{}; } }
    std::stringstream in(txt), warn; bool got = false; std::string what;
    try {
        auto p = pdaaal::parsing::PdaJsonParser::parse<W, named>(in, warn, mp ? nlohmann::json::input_format_t::msgpack : nlohmann::json::input_format_t::json); got = true;
        if (!unsure) {
            REQUIRE(ok, "a malformed file was read as a pushdown system");
            REQUIRE(p.states().size() == y.states.size(), "number of states " << p.states().size() << " instead of " << y.states.size());
            REQUIRE(p.number_of_labels() == y.labels.size(), "number of labels " << p.number_of_labels() << " instead of " << y.labels.size());
            for (auto& l : y.labels) REQUIRE(p.exists_label(l).first, "label " << l << " missing");
            if constexpr (named) for (auto& q : y.states) REQUIRE(p.exists_state(q).first, "state " << q << " missing");
            auto e = expand(y, y.labels); bool same = stored<WT>(p) == e; REQUIRE(same, "rules differ: " << stored<WT>(p).size() << " instead of " << e.size());
            // print
            auto dom = p.to_json(); J t = from_dom(dom); Sys z{named, wk}; bool h = false;
            REQUIRE(read_file(t, z, h), "printed text is not of the format: " << dom.dump());
            bool psame = expand(z, y.labels) == e; REQUIRE(psame, "printed text says something else: " << dom.dump());
            std::set<std::string> a(z.states.begin(), z.states.end()), b(y.states.begin(), y.states.end()); bool st = a == b; REQUIRE(st, "printed states differ: " << dom.dump());
            std::stringstream again(dom.dump()); auto p2 = pdaaal::parsing::PdaJsonParser::parse<W, named>(again, warn); auto e2 = expand(z, z.labels); bool rt = stored<WT>(p2) == e2; REQUIRE(rt, "reading what was printed gives another system: " << dom.dump());
            REQUIRE(p2.states().size() == p.states().size(), "reading what was printed gives another number of states: " << dom.dump());
            if (y.rules.size() > 1) c.nontrivial();
        }
    } catch (pbt::Fail&) { throw; } catch (std::exception& e) { what = e.what(); }
    if (!got) { REQUIRE(!ok || unsure, "a well-formed file was rejected: " << what); REQUIRE(!what.empty(), "rejected without a message"); if (mode) c.nontrivial(); }
    if (large) c.label("large"); c.label(mode == 0 ? "as written" : mode == 1 ? (ok ? "tree changed, still well-formed" : "tree changed, malformed") : (ok ? "text changed, still JSON" : "text changed, not JSON")); if (mp) c.label("MessagePack"); c.label(wname(wk)); c.label(named ? "named" : "indexed");
}
template <class WT> void sel(Src& s, pbt::Ctx& c, WK wk) { if (s.coin(1, 2)) go<WT, true>(s, c, wk); else go<WT, false>(s, c, wk); }
void prop(Src& s, pbt::Ctx& c) {
    switch (s.draw(5)) { case 0: sel<void>(s, c, NONE); break; case 1: sel<uint32_t>(s, c, UINT); break; case 2: sel<int32_t>(s, c, INT); break; case 3: sel<std::vector<uint32_t>>(s, c, VUINT); break; default: sel<std::vector<int32_t>>(s, c, VINT); }
}
}
PBT_MAIN(prop)
