// The command-line tool, run in process: for a well-formed question in files or on standard input it prints one JSON object
// whose verdict, weight and trace answer the question; otherwise it fails without printing a verdict.
#include "../solve.hpp"
#include "../jsonstored.hpp"
#include "../jsoninst.hpp"
#include "../retext.hpp"
#define main pdaaal_main
#include <main.cpp>
#undef main
using namespace jp; using namespace solve;
namespace {
using nlohmann::json;
struct Swap { std::ios& s; std::streambuf* old; Swap(std::ios& s_, std::streambuf* b) : s(s_), old(s_.rdbuf(b)) {} ~Swap() { s.rdbuf(old); s.clear(); } };
struct Scratch { std::vector<std::string> files; ~Scratch() { for (auto& f : files) unlink(f.c_str()); }
    std::string path(const std::string& tag) { const char* d = getenv("PBT_SCRATCH"); std::string f = std::string(d ? d : "/tmp") + "/cli" + std::to_string(getpid()) + tag; files.push_back(f); unlink(f.c_str()); return f; }
    std::string put(const std::string& tag, const std::string& body) { auto f = path(tag); std::ofstream o(f, std::ios::binary); o << body; return f; } };
struct Out { bool threw = false; std::string what, out, err; int rc = 0; };
Out cli(const std::vector<std::string>& args, const std::string& input) {
    Out r; std::stringstream o, e, i(input); std::vector<const char*> av{"pdaaal"}; for (auto& a : args) av.push_back(a.c_str());
    { Swap a(std::cout, o.rdbuf()), b(std::cerr, e.rdbuf()), c(std::cin, i.rdbuf()); try { r.rc = pdaaal_main((int)av.size(), av.data()); } catch (pbt::Fail&) { throw; } catch (std::exception& x) { r.threw = true; r.what = x.what(); } }
    r.out = o.str(); r.err = e.str(); return r;
}
std::string show(const std::vector<std::string>& a) { std::string o = "pdaaal"; for (auto& x : a) o += " " + x; return o; }
// An automaton of the model as JSON; extra states by number or (where states have names) by name
J pa_of(Src& s, const RPa& a, const Names& nm, bool named, const std::vector<int>& order, bool initial) {
    bool byname = named && s.coin(1, 2); (void)order;
    auto st = [&](int q) { if (q < a.n) return named ? J::str(nm.st[q]) : J::num(q); return byname ? J::str("x" + std::to_string(q)) : J::num(q + (named ? 0 : 10)); };
    J init = J::arr(), acc = J::arr(), edges = J::arr(); for (int q = 0; q < a.n; ++q) init.add(st(q)); for (int q = 0; q < a.N; ++q) if (a.acc[q]) acc.add(st(q));
    for (auto& [f, l, t] : a.tr) { J e = J::arr(); e.add(st(f)); e.add(J::str(nm.lb[l])); e.add(st(t)); edges.add(e); }
    for (size_t i = edges.a.size(); i > 1; --i) std::swap(edges.a[i - 1], edges.a[s.draw(i)]);
    J j = J::obj(); if (initial) j.put("initial", init); j.put("accepting", acc); j.put("edges", edges); if (s.coin(1, 2)) shuffle_keys(s, j); return j;
}
ReP word_re(const std::vector<int>& w) { ReP r; for (int l : w) { auto x = mkset({l}, false); r = r ? mk(Re::Cat, r, x) : x; } return r ? r : mk(Re::EmptyString); }
std::string text_of(Src& s, retext::Printer& p, const std::vector<size_t>& states, const ReP& re, const Names& nm) {
    std::string o = p.ws() + "<" + p.ws() + "["; bool f = true; for (auto q : states) { if (!f) o += p.ws() + "," + p.ws(); f = false; bool plain = true; for (unsigned char ch : nm.st[q]) plain &= isalnum(ch) || ch == '_'; if (plain && s.coin(2, 3)) o += nm.st[q]; else { o += '"'; for (char ch : nm.st[q]) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; } o += '"'; } }
    return o + "]" + p.ws() + "," + (re->k == Re::EmptyString ? std::string() : p.ws() + p.print(re, 0)) + p.ws() + ">" + p.ws();
}
void prop(Src& s, pbt::Ctx& c) {
    bool separate = s.coin(1, 2), text_sets = separate && s.coin(1, 2), named = s.coin(1, 2);
    WK wk = separate ? (WK)s.draw(3) : (WK)s.draw(5);
    size_t engine = s.coin(1, 15) ? (s.coin(1, 2) ? 0 : 3 + s.range(1, 4)) : 1 + s.draw(3);
    int tt = wk == NONE ? (s.coin(1, 12) ? 2 + (int)s.draw(3) : (int)s.draw(2)) : (int)s.draw(5);
    gen::PdsGen g = wgen(s, wk); if (tt == 2) g.w.lo = 0; g.weighted = wk != NONE;
    Case k;
    if (s.coin(1, 2)) { auto [d, IF] = gen::directed(s, g); k.d = d; k.I = IF.first; k.F = IF.second; } else { k.d = gen::pds(s, g); k.I = gen::lang(s, k.d, 2); k.F = gen::target(s, k.d, k.I, 2); }
    auto nm = names(s, k.d.n, k.d.L, named); if (text_sets) { for (int l = 0; l < k.d.L; ++l) nm.lb[l] = std::vector<std::string>{"A", "b1", "_x", "0", "zz"}[l]; }
    if (text_sets) { // sets of the form states x regular expression
        auto lang = [&] { gen::Lang x; if (s.coin(1, 2)) x.states.push_back(s.draw(k.d.n)); else { for (int q = 0; q < k.d.n; ++q) if (s.coin(1, 2)) x.states.push_back(q); if (x.states.empty()) x.states.push_back(0); } x.re = retext::re(s, k.d.L, s.range(0, 2)); x.pa = mkpa(k.d.n, x.states, to_nfa(x.re, k.d.L)); return x; };
        auto pt = [&](const Config& x) { gen::Lang r; r.states = {(size_t)x.p}; r.re = word_re(x.st); r.pa = mkpa(k.d.n, r.states, to_nfa(r.re, k.d.L)); return r; };
        auto start = gen::sample(s, k.I.pa); k.I = start && s.coin(1, 2) ? pt(*start) : lang(); start = gen::sample(s, k.I.pa);
        if (start && s.coin(2, 3)) { auto x = *start; int steps = s.range(1, 12); for (int i = 0; i < steps; ++i) { auto n = succ(k.d, x); if (n.empty()) break; x = s.pick(n).first; if (x.st.size() > 7) break; } k.F = pt(x); } else k.F = lang();
    }
    J body = pda_json(s, k.d, nm, named, wk);
    if (text_sets) for (auto& [key, st] : body.o) if (key == "states") { // every label is known before the sets are read
        J* first = st.is(J::Obj) ? (st.o.empty() ? nullptr : &st.o[0].second) : (st.a.empty() ? nullptr : &st.a[0]); if (first) for (auto& l : nm.lb) if (!first->get(l)) first->put(l, J::arr()); }
    Sys y{named, wk}; bool huge = false; REQUIRE(read_body(body, y, huge), "generated file"); std::vector<int> order(k.d.n, -1); // number printed for a state -> state of the model
    for (int q = 0; q < k.d.n; ++q) order[y.sid(nm.st[q])] = q;
    Scratch scr; std::vector<std::string> args; std::string input, shown;
    std::vector<std::pair<std::string, std::string>> ev; std::string it, ft;
    if (separate) {
        J root = J::obj(); root.put("pda", body); std::string pt = text(root, Style{&s, (int)s.draw(3)});
        if (s.coin(1, 5)) { args.push_back("--pda"); args.push_back("-"); input = pt; } else { args.push_back(s.coin(1, 2) ? "--pda" : "-p"); args.push_back(scr.put("p.json", pt)); }
        if (wk != NONE || s.coin(1, 3)) { static const char* up[] = {"NONE", "UINT", "Int"}; args.push_back("--weight"); args.push_back(s.coin(1, 5) ? up[wk] : wname(wk)); }
        if (named) args.push_back("--state-names"); if (s.coin(1, 5)) { args.push_back("--format"); args.push_back("pdaaal"); }
        retext::Printer pr{s, nm.lb};
        if (text_sets) { it = text_of(s, pr, k.I.states, k.I.re, nm); ft = text_of(s, pr, k.F.states, k.F.re, nm); }
        else { args.push_back("--json-automata"); J a = J::obj(), b = J::obj(); a.put("P-automaton", pa_of(s, k.I.pa, nm, named, order, true)); b.put("P-automaton", pa_of(s, k.F.pa, nm, named, order, true)); it = text(a, Style{&s, (int)s.draw(3)}); ft = text(b, Style{&s, (int)s.draw(3)}); }
        args.push_back(s.coin(1, 2) ? "-i" : "--initial-automaton"); args.push_back(scr.put("i.txt", it)); args.push_back(s.coin(1, 2) ? "-f" : "--final-automaton"); args.push_back(scr.put("f.txt", ft));
        shown = pt + "\ninitial: " + it + "\nfinal: " + ft;
    } else {
        J h = J::obj(); h.put("state-names", J::boolean(named)); if (wk <= INT) h.put("weight-type", J::str(wname(wk))); else { J a = J::arr(); a.add(J::str(wk == VUINT ? "uint" : "int")); h.put("weight-type", a); }
        J a = J::arr(); a.add(h); a.add(body); a.add(pa_of(s, k.I.pa, nm, named, order, s.coin(1, 4))); a.add(pa_of(s, k.F.pa, nm, named, order, s.coin(1, 4)));
        J root = J::obj(); root.put("instance", a); bool mp = s.coin(1, 4); std::string txt = mp ? msgpack(root) : text(root, Style{&s, (int)s.draw(3)}); shown = (mp ? "MessagePack of " : "") + text(root);
        if (mp) args.push_back("--msgpack");
        switch (s.draw(3)) { case 0: args.push_back("--input"); args.push_back(scr.put("in.json", txt)); break; case 1: args.push_back("--input"); args.push_back("-"); input = txt; break; default: input = txt; }
    }
    if (engine || s.coin(1, 2)) { args.push_back(s.coin(1, 2) ? "-e" : "--engine"); args.push_back(std::to_string(engine)); }
    if (tt || s.coin(1, 2)) { args.push_back(s.coin(1, 2) ? "-t" : "--trace"); args.push_back(std::to_string(tt)); }
    bool silent = s.coin(1, 4); if (silent) args.push_back(s.coin(1, 2) ? "-s" : "--silent");
    std::string ppda, pinst; if (s.coin(1, 6)) { ppda = scr.path("o.json"); args.push_back("--print-pda-json"); args.push_back(ppda); } if (s.coin(1, 6)) { pinst = scr.path("oi.json"); args.push_back("--print-solver-instance"); args.push_back(pinst); }
    // malformed command lines and files
    int bad = s.coin(1, 10) ? 1 + (int)s.draw(6) : 0; std::string why;
    if (bad == 1) { args.push_back("--trace"); args.push_back(std::vector<std::string>{"5", "x", "-1", "any"}[s.draw(4)]); for (size_t i = 0; i + 1 < args.size() - 2; ++i) if (args[i] == "-t" || args[i] == "--trace") { args.erase(args.begin() + i, args.begin() + i + 2); break; } why = "unknown trace type"; }
    if (bad == 2) { args.push_back("--nosuch"); why = "unknown option"; }
    if (bad == 3) { for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "--input" && args[i + 1] != "-") { args[i + 1] += ".missing"; why = "missing file"; } else if (args[i] == "-i" || args[i] == "--initial-automaton") { args[i + 1] += ".missing"; why = "missing file"; } }
    if (bad == 4 && separate) { args.push_back("--weight"); args.push_back("float"); for (size_t i = 0; i + 1 < args.size() - 2; ++i) if (args[i] == "--weight") { args.erase(args.begin() + i, args.begin() + i + 2); break; } why = "unknown weight type"; }
    if (bad == 5 && separate) { for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "--format") { args.erase(args.begin() + i, args.begin() + i + 2); break; } args.push_back("--format"); args.push_back(s.coin(1, 2) ? "moped" : "xml"); why = "unsupported format"; }
    if (bad == 6 && separate && k.d.n && !k.d.rules.empty()) { if (named) { args.erase(std::find(args.begin(), args.end(), "--state-names")); why = "named states without --state-names"; } else { args.push_back("--state-names"); why = "indexed states with --state-names"; } }
    c.note([&] { auto a = args; for (auto& x : a) if (auto p = x.find("/cli"); p != std::string::npos) x = "FILE" + x.substr(x.find_first_not_of("0123456789", p + 4)); return show(a) + (why.empty() ? "" : "   (" + why + ")") + "\n" + shown; });
    bool maximize = tt == 3; PreStar ref(k.d, k.F.pa, tt < 2 ? BOOL : maximize ? MAX : MIN); auto opt = ref.solve(k.I.pa);
    if (tt >= 3 && (wk == VUINT || wk == VINT)) { Pds d1 = k.d; for (auto& r : d1.rules) r.w.resize(r.w.empty() ? 0 : 1); PreStar r1(d1, k.F.pa, maximize ? MAX : MIN); for (size_t i = 0; i < ref.v.size(); ++i) if (ref.v[i] && ref.v[i]->inf != r1.v[i]->inf) throw pbt::Discard{}; auto o1 = r1.solve(k.I.pa); if (opt && opt->inf != o1->inf) throw pbt::Discard{}; }
    if (opt && !opt->inf) for (auto x : opt->w) if (x > (1 << 30) || x < -(1 << 30)) throw pbt::Discard{};
    Out o = cli(args, input);
    if (!why.empty() || engine > 3 || (engine && wk == NONE && tt >= 2)) {
        REQUIRE(o.threw || o.rc != 0, "no error for a question that cannot be answered" << (why.empty() ? "" : ": " + why) << "; output: " << o.out);
        REQUIRE(o.out.find("\"result\"") == std::string::npos, "an error, but a verdict was printed: " << o.out);
        c.label("error: " + (!why.empty() ? why : engine > 3 ? "unknown engine" : "optimal trace without weights")); c.nontrivial(); return;
    }
    REQUIRE(!o.threw, "failed: " << o.what); REQUIRE(o.rc == 0, "exit code " << o.rc);
    if (engine == 0) { if (silent) REQUIRE(o.out.empty(), "output without verification: " << o.out); else { REQUIRE(json::accept(o.out), "output is not JSON: " << o.out); REQUIRE(!json::parse(o.out).contains("result"), "a verdict without verification"); } c.label("no verification"); }
    else {
        REQUIRE(json::accept(o.out), "output is not JSON: " << o.out); json j = json::parse(o.out);
        static const char* en[] = {"", "post*", "pre*", "dual*"}; REQUIRE(j.contains("engine") && j["engine"] == en[engine], "engine: " << o.out); REQUIRE(j.contains("parsing-duration") == !silent, "parsing-duration: " << o.out);
        REQUIRE(j.contains("result") && j["result"].is_boolean(), "no verdict: " << o.out); bool res = j["result"]; REQUIRE(res == opt.has_value(), "verdict " << res << ": " << o.out);
        c.label(res ? "reachable" : "unreachable"); REQUIRE(j.contains("trace"), "no trace entry: " << o.out);
        if (tt == 0 || !res) { REQUIRE(j["trace"].empty(), "a trace that was not asked for or does not exist: " << o.out); REQUIRE(!j.contains("weight"), "a weight that was not asked for or does not exist: " << o.out); }
        if (res && tt >= 2) {
            REQUIRE(j.contains("weight"), "no weight: " << o.out); auto& w = j["weight"];
            if (opt->inf) { REQUIRE(w == (maximize ? "infinity" : "negative infinity"), "unbounded, but weight " << w.dump()); c.label("unbounded"); }
            else { Wt rep; if (w.is_number()) rep = {w.get<long long>()}; else { REQUIRE(w.is_array(), "weight " << w.dump()); for (auto& x : w) rep.push_back(x.get<long long>()); } REQUIRE(wcmp(rep, opt->w) == 0, "weight " << w.dump() << " but optimum " << wshow(opt->w)); }
        }
        if (res && tt >= 1 && !(tt >= 2 && opt->inf)) {
            std::vector<Config> t; REQUIRE(j["trace"].is_array(), "trace: " << o.out);
            for (auto& x : j["trace"]) { REQUIRE(x.contains("state") && x["state"].is_number_unsigned() && x["state"].get<size_t>() < order.size(), "trace state: " << o.out); Config q{order[x["state"].get<size_t>()], {}}; for (auto& l : x["stack"]) { int id = std::find(nm.lb.begin(), nm.lb.end(), l.get<std::string>()) - nm.lb.begin(); REQUIRE(id < k.d.L, "trace label: " << o.out); q.st.push_back(id); } t.push_back(q); }
            Wt tot = check_trace(k.d, k.I.pa, k.F.pa, t, "printed trace", maximize); if (tt >= 2) REQUIRE(wcmp(tot, opt->w) == 0, "trace weight " << wshow(tot) << " but optimum " << wshow(opt->w) << ": " << o.out);
            if (t.size() > 1) c.nontrivial();
        }
    }
    auto slurp = [](const std::string& f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); };
    if (!ppda.empty()) { auto t = slurp(ppda); REQUIRE(json::accept(t), "printed pushdown system: " << t); Sys z{named, wk}; bool h = false; J dom = from_dom(json::parse(t)); REQUIRE(read_file(dom, z, h), "printed pushdown system: " << t); auto all = y.labels; for (auto& l : nm.lb) if (std::find(all.begin(), all.end(), l) == all.end()) all.push_back(l); bool same = expand(z, all) == expand(y, all); REQUIRE(same, "the printed pushdown system is another one: " << t); c.label("pushdown system printed"); }
    if (!pinst.empty()) { // the printed instance asks the same question
        auto t = slurp(pinst); REQUIRE(json::accept(t), "printed instance: " << t);
        Out o2 = cli({"-e", std::to_string(1 + s.draw(3))}, t); REQUIRE(!o2.threw, "the printed instance was rejected: " << o2.what << " " << t); auto j = json::parse(o2.out); REQUIRE(j["result"] == opt.has_value(), "the printed instance has another answer: " << t); c.label("instance printed");
    }
    if (!k.d.rules.empty() && opt) c.nontrivial(); c.label(separate ? (text_sets ? "separate files, text sets" : "separate files, JSON sets") : "one instance file"); c.label(wname(wk)); c.label("trace " + std::to_string(tt));
}
}
PBT_MAIN(prop)
