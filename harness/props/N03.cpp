// Text of regular expressions: the parsed NFA has the language of the expression; malformed text is refused with an error.
#include "../nfa_util.hpp"
#include "../retext.hpp"
#include <pdaaal/parsing/NfaParser.h>
using namespace nfau; using retext::Printer; using retext::re;
static const std::vector<std::string> names{"A", "b1", "_x", "0", "Label_3", "AA"};
static size_t label_of(const std::string& n) { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return Lab<size_t>::of((int)i); throw std::logic_error("label function got \"" + n + "\", which the text does not contain"); }
static N<size_t> parse(pbt::Src& s, const std::string& text, bool& file) {
    file = s.coin(1, 16);
    if (!file) return pdaaal::NfaParser::parse_string(text, label_of);
    const char* d = getenv("PBT_SCRATCH"); std::string f = std::string(d ? d : "/tmp") + "/nfa" + std::to_string(getpid()) + ".txt";
    { std::ofstream o(f); o << text; }
    struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f};
    return pdaaal::NfaParser::parse_file(f, label_of);
}
static void prop(pbt::Src& s, pbt::Ctx& c) {
    int L = s.range(1, 4); bool file = false;
    int mode = s.weighted({6, 3, 2});
    if (mode == 2) { // arbitrary text over the syntax characters: an answer or an error, never a crash
        static const std::vector<std::string> tok{"[", "]", "(", ")", "A", ",", "^", "|", "*", "+", "?", ".", " ", "#", "\n", "[A]", "b1", "[^A]", "\xff", "-", "<"};
        std::string t; int k = s.range(0, 14); for (int i = 0; i < k; ++i) t += s.pick(tok);
        c.note([&] { return "text: " + t; });
        bool ok = true; try { auto n = pdaaal::NfaParser::parse_string(t, [](const std::string& x) -> size_t { if (x.empty()) throw std::logic_error("empty label"); return x.size(); }); n.compile(); n.empty_accept(); } catch (std::runtime_error&) { ok = false; }
        c.label(ok ? "arbitrary text, accepted" : "arbitrary text, refused"); if (k > 3) c.nontrivial();
        return;
    }
    Printer p{s, names};
    if (mode == 0 && s.coin(1, 30)) {
        auto t = p.ws(); c.note([&] { return "text without symbols: \"" + t + "\""; });
        auto n = parse(s, t, file); n.compile(); same_language<size_t>(n, to_nfa(mk(Re::EmptyString), L), L, 2, "no symbols"); c.label("empty expression"); return;
    }
    auto r = re(s, L, s.range(1, 2 + s.size / 25));
    std::string t = p.ws() + p.print(r, 0) + p.ws();
    if (mode == 1) {
        static const std::vector<std::string> after{")", "]", "|", "(", "[]", "[^]", "[A", "[A,]", "[,A]", "A", "[A]**", "[A]*?", "[A]||[A]", "([A]", "()", "^", "[A] * [A]", "[A B]", "[A]|*", "&", "[[A]]", "%"};
        static const std::vector<std::string> before{"*", "|", ")", "+", "?", "]", "A ", "[A", "(", ",", "[] ", "() "};
        bool front = s.coin(1, 3);
        if (!front && s.coin(1, 6)) t += " # end of text in a comment";
        std::string bad = front ? s.pick(before) + t : t + "\n" + s.pick(after);
        c.note([&] { return "malformed: " + bad; });
        bool ok = true; try { parse(s, bad, file); } catch (std::runtime_error&) { ok = false; }
        REQUIRE(!ok, "malformed text was accepted: " << bad);
        c.label("malformed text refused"); c.nontrivial(); return;
    }
    if (s.coin(1, 8)) { t += "# end"; }
    c.note([&] { return "text: " + t + "\nmeaning: " + show(r, &names); });
    auto n = parse(s, t, file); n.compile();
    same_language<size_t>(n, to_nfa(r, L + 1), L + 1, L <= 2 ? 5 : 4, "parsed");
    if (r->a) c.nontrivial();
    c.label("well-formed"); if (p.busy) c.label("with comments"); if (file) c.label("from a file");
}
PBT_MAIN(prop)
