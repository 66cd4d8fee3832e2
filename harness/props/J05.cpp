// The JSON printer of the command-line tool: whatever is written, in whatever nesting, the document says exactly that.
#include "../jsonx.hpp"
#include <utils/json_stream.h>
using namespace jx; using pbt::Src;
namespace {
json value(Src& s, int depth) { return json::parse(text(any(s, depth))); }
std::string key(Src& s) { static const std::vector<std::string> pool{"result", "a", "", "two words", "say \"hi\"", "back\\slash", "line\nbreak", "tab\t", "\xc3\xa9", "{", "x:y", "a,b"}; return s.pick(pool); }
void prop(Src& s, pbt::Ctx& c) {
    std::stringstream out; std::string log, want; size_t docs = 1 + (s.coin(1, 4) ? 1 : 0), indent = s.draw(6); bool esc = false, nested = false, empty = false; std::vector<std::string> texts; std::vector<nlohmann::ordered_json> docs_want;
    using OJ = nlohmann::ordered_json; std::vector<OJ> open; std::vector<std::string> keys;
    {
        json_stream js(indent, out);
        for (size_t d = 0; d < docs; ++d) {
            open = {OJ::object()}; keys = {""}; bool any_out = false; int n = s.coin(1, 12) ? 0 : s.range(1, 12); size_t at = out.str().size();
            auto fresh = [&] { for (int i = 0; i < 20; ++i) { auto k = key(s); if (!open.back().contains(k)) return k; } auto k = "k" + std::to_string(open.back().size()); return k; };
            auto pop = [&] { OJ o = open.back(); auto k = keys.back(); open.pop_back(); keys.pop_back(); if (o.empty()) empty = true; open.back()[k] = o; };
            for (int i = 0; i < n; ++i) {
                int op = s.weighted({5, 3, 2, 3});
                if (op == 0) { auto k = fresh(); auto v = value(s, 1); js.entry(k, v); open.back()[k] = OJ::parse(v.dump()); log += "entry " + k + " " + v.dump() + "\n"; any_out = true; esc |= json(k).dump().size() != k.size() + 2; }
                else if (op == 1) { auto k = fresh(); js.begin_object(k); open.push_back(OJ::object()); keys.push_back(k); log += "begin " + k + "\n"; any_out = true; nested = true; }
                else if (op == 2) { auto k = fresh(); auto v = value(s, 2); js.entry_object(k, v); open.back()[k] = OJ::parse(v.dump()); log += "entry_object " + k + " " + v.dump() + "\n"; any_out = true; }
                else if (open.size() > 1) { js.end_object(); pop(); log += "end\n"; }
            }
            if (d + 1 < docs) { js.close(); log += "close\n"; while (open.size() > 1) pop(); if (any_out) docs_want.push_back(open[0]); texts.push_back(out.str().substr(at)); if (!any_out) { REQUIRE(texts.back().empty(), "output without content"); texts.pop_back(); } }
            else { c.note([&] { return log; }); while (open.size() > 1) pop(); if (any_out) docs_want.push_back(open[0]); want = std::to_string(at); if (!any_out) want = ""; }
        }
    }
    if (!want.empty()) texts.push_back(out.str().substr(std::stoul(want)));
    REQUIRE(texts.size() == docs_want.size(), "documents");
    for (size_t i = 0; i < texts.size(); ++i) {
        REQUIRE(OJ::accept(texts[i]), "not JSON: " << texts[i]); auto got = OJ::parse(texts[i]);
        bool same = got == docs_want[i]; REQUIRE(same, "printed " << got.dump() << " instead of " << docs_want[i].dump());
    }
    if (nested) c.label("nested objects"); if (empty) c.label("empty object"); if (esc) c.label("key that must be escaped"); if (docs > 1) c.label("two documents");
    if (log.size() > 20 && nested) c.nontrivial();
}
}
PBT_MAIN(prop)
