// Instance files: pushdown system, initial and final set exactly as written, or rejected; printing and reading again changes nothing.
#include "../jsonstored.hpp"
#include "../jsoninst.hpp"
#include <parsing/SolverInstanceJsonParser.h>
using namespace jp;
namespace {
using Word = std::vector<std::string>;
std::vector<std::pair<int, Word>> questions(Src& s, const PdaView& v, const Pa& a, const std::vector<std::string>& labels) {
    std::vector<std::pair<int, Word>> r; if (v.states.empty()) return r;
    for (int i = 0; i < 5; ++i) {
        int p = s.draw(v.states.size()); std::string q = token(v, p); Word w;
        for (int j = 0; j < 6; ++j) { std::vector<std::pair<std::string, std::string>> out; for (auto& [f, l, t] : a.tr) if (f == q) out.push_back({l, t}); if (out.empty() || s.coin(1, 6)) break; auto [l, t] = s.pick(out); w.push_back(l); q = t; if (a.acc.count(q) && s.coin(1, 2)) break; }
        r.push_back({p, w}); if (!w.empty() && !labels.empty()) { auto x = w; x[s.draw(x.size())] = s.pick(labels); r.push_back({p, x}); w.pop_back(); r.push_back({p, w}); }
    }
    return r;
}
template <class P> struct inner; template <class L, class T, pdaaal::fut::type C, class S, bool b> struct inner<pdaaal::PDA<L, pdaaal::weight<T>, C, S, b>> { using type = T; };
// the product does not expose its parts through the variant in the same order as the file, so compare each part
template <class Prod> bool compare(Prod& prod, const Inst& x, const std::vector<std::pair<int, Word>>& qi, const std::vector<std::pair<int, Word>>& qf, const char* what) {
    auto& p = prod.pda(); using P = std::decay_t<decltype(p)>; using WT = typename inner<P>::type; auto v = x.view();
    constexpr bool named = std::is_same_v<typename P::expose_state_t, std::string>; REQUIRE(named == x.sys.named, what << ": state names");
    constexpr WK wk = std::is_void_v<WT> ? NONE : std::is_same_v<WT, uint32_t> ? UINT : std::is_same_v<WT, int32_t> ? INT : std::is_same_v<WT, std::vector<uint32_t>> ? VUINT : VINT; REQUIRE(wk == x.sys.wk, what << ": weights are " << wname(wk) << " instead of " << wname(x.sys.wk));
    REQUIRE(p.states().size() == x.sys.states.size(), what << ": number of states " << p.states().size() << " instead of " << x.sys.states.size());
    auto labels = x.sys.labels; for (auto* a : {&x.I, &x.F}) for (auto& [f, l, t] : a->tr) if (!l.empty() && std::find(labels.begin(), labels.end(), l) == labels.end()) labels.push_back(l);
    REQUIRE(p.number_of_labels() == labels.size(), what << ": number of labels " << p.number_of_labels() << " instead of " << labels.size()); for (auto& l : labels) REQUIRE(p.exists_label(l).first, what << ": label " << l << " missing");
    if constexpr (named) for (size_t i = 0; i < x.sys.states.size(); ++i) REQUIRE(p.exists_state(x.sys.states[i]).first, what << ": state " << x.sys.states[i] << " missing");
    bool same = stored<WT>(p) == expand(x.sys, labels); REQUIRE(same, what << ": rules differ");
    auto ident = [&](int q) { if constexpr (named) return p.exists_state(x.sys.states[q]).second; else return (size_t)q; };
    bool yes = false, no = false; auto side = [&](const auto& a, const Pa& ref, const auto& qs, const char* which) {
        auto st = stored_pa(a, p, v); REQUIRE(&a.pda() == &p, what << ": " << which << " automaton of another pushdown system");
        for (auto& [q, w] : qs) { bool e = ref.accepts(token(v, q), w); (e ? yes : no) = true; REQUIRE(st.accepts("#" + std::to_string(ident(q)), w) == e, what << ": the " << which << " automaton " << (e ? "misses" : "has") << " a configuration of " << v.states[q] << " with " << w.size() << " symbols"); }
    };
    side(prod.initial_automaton(), x.I, qi, "initial"); side(prod.final_automaton(), x.F, qf, "final");
    return yes && no;
}
void prop(Src& s, pbt::Ctx& c) {
    WK wk = (WK)s.draw(5); bool named = s.coin(1, 2); auto g = wgen(s, wk); Pds d = gen::pds(s, g); if (s.coin(1, 5)) d.n += s.range(1, 2);
    if ((wk == VUINT || wk == VINT) && s.coin(1, 2)) for (auto& r : d.rules) r.w.resize(2);
    auto nm = names(s, d.n, d.L, named); J root = inst_json(s, d, nm, named, wk, s.coin(1, 2));
    int mode = s.weighted({5, 4, 1});
    if (mode == 1) { int k = s.range(1, 2); for (int i = 0; i < k; ++i) mutate(s, root, {"instance", "state-names", "weight-type", "states", "to", "weight", "initial", "accepting", "edges"}); }
    if (mode == 1 && s.coin(1, 8) && root.is(J::Obj) && root.get("instance") && root.get("instance")->is(J::Arr)) for (auto& [k, v] : root.o) if (k == "instance") { if (s.coin(1, 2) || v.a.empty()) { J x = v; v.add(x); } else v.a.resize(s.draw(v.a.size())); break; }
    bool mp = mode != 2 && s.coin(1, 4); std::string txt = mp ? msgpack(root) : text(root, Style{&s, (int)s.draw(3)});
    if (mode == 2) { int k = s.range(1, 3); for (int i = 0; i < k && !txt.empty(); ++i) { size_t at = s.draw(txt.size()); switch (s.draw(4)) { case 0: txt.erase(at, 1 + s.draw(3)); break; case 1: txt.insert(at, 1, "{}[],:\"1-x "[s.draw(11)]); break; case 2: txt[at] = "{}[],:\"0tn"[s.draw(10)]; break; default: txt.resize(at); } } }
    Inst ref; bool huge = false, ok = mode == 2 ? nlohmann::json::accept(txt) : read_inst(root, ref, huge), unsure = (mode == 2 && ok) || ref.unsure;
    if (huge || (mode != 2 && has_huge(root))) throw pbt::Discard{};
    if (mode == 2) { int run = 0; for (char ch : txt) { run = isdigit((unsigned char)ch) ? run + 1 : 0; if (run > 4) throw pbt::Discard{}; } }
    c.note([&] { return (mp ? "MessagePack of " + text(root) : txt); });
    std::stringstream in(txt); bool got = false; std::string what;
    try {
        auto inst = pdaaal::parsing::SolverInstanceJsonParser::parse<>(in, mp ? nlohmann::json::input_format_t::msgpack : nlohmann::json::input_format_t::json); got = true;
        if (!unsure) {
            REQUIRE(ok, "a malformed file was read as an instance");
            auto v = ref.view(); auto qi = questions(s, v, ref.I, ref.sys.labels), qf = questions(s, v, ref.F, ref.sys.labels); nlohmann::json dom;
            std::visit([&](auto& i) { if (compare(*i, ref, qi, qf, "as read")) c.label("accepted and rejected words"); dom = i->to_json(); }, inst);
            Inst z; bool h = false; REQUIRE(read_inst(from_dom(dom), z, h) || h, "printed instance is not of the format: " << dom.dump());
            std::stringstream again(dom.dump()); auto b = pdaaal::parsing::SolverInstanceJsonParser::parse<>(again);
            // printing lists states and labels in another order and drops labels nothing mentions; the rules and sets must be the same
            std::visit([&](auto& i) { REQUIRE(i->pda().states().size() == ref.sys.states.size(), "printed and read again: number of states: " << dom.dump()); compare(*i, z, questions(s, z.view(), z.I, z.sys.labels), questions(s, z.view(), z.F, z.sys.labels), "printed and read again"); }, b);
            auto labels = ref.sys.labels; bool same = expand(z.sys, labels) == expand(ref.sys, labels); REQUIRE(same, "printed rules differ: " << dom.dump());
            auto side = [&](const Pa& a, const Pa& b2, const auto& qs) { for (auto& [q, w] : qs) REQUIRE(a.accepts(token(v, q), w) == b2.accepts(token(v, q), w), "printed automaton differs: " << dom.dump()); }; side(ref.I, z.I, qi); side(ref.F, z.F, qf);
            if (ref.sys.rules.size() > 1) c.nontrivial();
        }
    } catch (pbt::Fail&) { throw; } catch (std::exception& e) { what = e.what(); }
    if (!got) { REQUIRE(!ok || unsure, "a well-formed file was rejected: " << what); REQUIRE(!what.empty(), "rejected without a message"); if (mode) c.nontrivial(); }
    c.label(mode == 0 ? "as written" : mode == 1 ? (ok ? "tree changed, still well-formed" : "tree changed, malformed") : (ok ? "text changed, still JSON" : "text changed, not JSON")); if (mp) c.label("MessagePack"); if (mode == 0) c.label(wname(wk)); if (unsure) c.label("either answer allowed");
}
}
PBT_MAIN(prop)
