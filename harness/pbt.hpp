// Small property-based testing runner.
//
//  * Inputs come from a *choice source*: a recorded sequence of bounded integers (0 = simplest). A case is a pure
//    function of its choice sequence, so a failing case is stored, shrunk and replayed as that sequence.
//  * The worker runs cases in a forked child; the choices are recorded in shared memory, so a crash (assert, sanitizer
//    report, signal), an uncaught exception or a hang is a failing case like any other.
//  * Shrinking: delete blocks, zero blocks, lower single values; every candidate runs in its own forked child.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unordered_set>
#include <fstream>
#include <chrono>
#include <iostream>
#include <algorithm>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

constexpr size_t MAXC = 1 << 16;
struct Shared {
    uint64_t n;              // choices recorded in the current case
    uint64_t cases;          // finished cases
    uint64_t discards;
    int status;              // 0 running, 1 failed with message, 2 done
    char msg[4000];
    uint32_t choices[MAXC];
};

class Src {
    const std::vector<uint32_t>* replay_ = nullptr;
    uint64_t rng_ = 0;
    Shared* sh_;
public:
    int size = 10;          // size hint, 1..100
    Src(uint64_t seed, Shared* sh) : rng_(seed), sh_(sh) { sh_->n = 0; }
    Src(const std::vector<uint32_t>& r, Shared* sh) : replay_(&r), sh_(sh) { sh_->n = 0; }
    // uniform in [0,n)
    uint32_t draw(uint32_t n) {
        if (n <= 1) n = 1;
        uint32_t v;
        if (replay_) {
            v = sh_->n < replay_->size() ? (*replay_)[sh_->n] : 0;
            if (v >= n) v = v % n;
        } else {
            v = n == 1 ? 0 : static_cast<uint32_t>(splitmix(rng_) % n);
        }
        if (sh_->n >= MAXC) throw Discard{};
        sh_->choices[sh_->n++] = v;
        return v;
    }
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); } // inclusive, lo simplest
    bool coin(uint32_t num, uint32_t den) { return draw(den) >= den - num; }                             // true with num/den, false simplest
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(static_cast<uint32_t>(v.size()))]; }
    uint64_t draw64() { uint64_t hi = draw(0xffffffffu); return (hi << 32) | draw(0xffffffffu); }
    // index by weight
    int weighted(const std::vector<int>& w) {
        int tot = 0; for (int x : w) tot += x;
        int r = static_cast<int>(draw(static_cast<uint32_t>(tot)));
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return static_cast<int>(i); r -= w[i]; }
        return static_cast<int>(w.size()) - 1;
    }
};

struct Ctx {
    bool verbose = false, live = false;   // live: print notes at once (replay of a case that may crash)
    bool nontriv = false;
    std::string text;
    std::map<std::string, uint64_t>* labels = nullptr;
    void label(const std::string& l) { if (labels) ++(*labels)[l]; }
    void nontrivial() { nontriv = true; }
    template <class F> void note(F&& f) { if (live) { printf("%s\n", std::string(f()).c_str()); fflush(stdout); } else if (verbose) { text += f(); text += "\n"; } }
};

using Prop = void (*)(Src&, Ctx&);

struct Options { int hang_s = 30; uint64_t mem_mb = 0; };

// rendered inputs for samples
inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline void run_one(Prop prop, Src& s, Ctx& c) { s.size = 1 + static_cast<int>(s.draw(100)); prop(s, c); }

// outcome: 0 ok, 1 fail (msg)
inline int run_isolated(Prop prop, const std::vector<uint32_t>& ch, Shared* sh, int timeout_s, std::string& msg, bool verbose_out, size_t* used = nullptr) {
    sh->status = 0; sh->msg[0] = 0; sh->n = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (!verbose_out) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1); }
        Src s(ch, sh); Ctx c; c.verbose = c.live = verbose_out;
        try { run_one(prop, s, c); }
        catch (Fail& f) { if (verbose_out) { printf("%s\nFAIL: %s\n", c.text.c_str(), f.msg.c_str()); fflush(stdout); } snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->status = 1; _exit(7); }
        catch (Discard&) { sh->status = 2; _exit(0); }
        catch (std::exception& e) { if (verbose_out) { printf("%s\nEXC: %s\n", c.text.c_str(), e.what()); fflush(stdout); } snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", e.what()); sh->status = 1; _exit(7); }
        if (verbose_out) { printf("%s\nOK\n", c.text.c_str()); fflush(stdout); }
        sh->status = 2; _exit(0);
    }
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(timeout_s)) {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            msg = "no answer within " + std::to_string(timeout_s) + " s (hang)";
            if (used) *used = sh->n;
            return 1;
        }
        usleep(300);
    }
    if (used) *used = sh->n;
    if (sh->status == 1) { msg = sh->msg; return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 2) return 0;
    if (WIFSIGNALED(st)) msg = "crashed with signal " + std::to_string(WTERMSIG(st));
    else msg = "crashed (exit " + std::to_string(WEXITSTATUS(st)) + ": assertion or sanitizer report)";
    return 1;
}

inline std::vector<uint32_t> shrink(Prop prop, std::vector<uint32_t> best, Shared* sh, int timeout_s, double budget_s, std::string& msg) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
    auto attempt = [&](std::vector<uint32_t> cand) {
        if (over()) return false;
        std::string m; size_t used = 0;
        if (run_isolated(prop, cand, sh, timeout_s, m, false, &used) == 1) {
            if (used < cand.size()) cand.resize(used);
            while (!cand.empty() && cand.back() == 0) cand.pop_back();
            bool better = cand.size() < best.size() || (cand.size() == best.size() && cand < best);
            if (better) { best = cand; msg = m; return true; }
        }
        return false;
    };
    attempt(best);
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t blk : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
            for (size_t i = best.size(); i-- > 0 && !over();) {
                if (i + blk > best.size()) continue;
                auto c = best; c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) { progress = true; continue; }
            }
        }
        for (size_t blk : {8u, 4u, 2u, 1u}) {
            for (size_t i = 0; i + blk <= best.size() && !over(); ++i) {
                bool any = false; for (size_t k = 0; k < blk; ++k) any |= best[i + k] != 0;
                if (!any) continue;
                auto c = best; std::fill(c.begin() + i, c.begin() + i + blk, 0);
                if (attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && !over(); ++i) {
            while (i < best.size() && best[i] > 1) { auto c = best; c[i] /= 2; if (!attempt(c)) break; progress = true; }
            while (i < best.size() && best[i] > 0) { auto c = best; c[i] -= 1; if (!attempt(c)) break; progress = true; }
        }
    }
    return best;
}

inline std::vector<uint32_t> read_replay(const std::string& path) {
    // file: lines starting with '#' are comments; the rest are integers
    std::ifstream f(path); std::vector<uint32_t> v; std::string line;
    while (std::getline(f, line)) {
        if (!line.empty() && line[0] == '#') continue;
        std::stringstream ss(line); uint32_t x; while (ss >> x) v.push_back(x);
    }
    return v;
}

// usage: BIN run SEED CASES TIME_S OUT.json FAIL.txt | BIN replay FILE | BIN shrink FILE OUT BUDGET_S | BIN show FILE
inline int main_impl(int argc, char** argv, Prop prop, Options opt) {
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc < 2) return 3;
    std::string mode = argv[1];
    if (opt.mem_mb) { struct rlimit rl{opt.mem_mb << 20, opt.mem_mb << 20}; setrlimit(RLIMIT_AS, &rl); }
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (mode == "replay" || mode == "show") {
        std::string msg;
        int r = run_isolated(prop, read_replay(argv[2]), sh, opt.hang_s, msg, true);
        printf("%s %s\n", r ? "FAILED" : "PASSED", msg.c_str());
        return r ? 1 : 0;
    }
    if (mode == "shrink") {
        std::string msg;
        auto ch = read_replay(argv[2]);
        int r = run_isolated(prop, ch, sh, opt.hang_s, msg, false);
        if (!r) { printf("not reproducible\n"); return 4; }
        auto best = shrink(prop, ch, sh, opt.hang_s, atof(argv[4]), msg);
        std::ofstream o(argv[3]);
        std::string line; for (char c : msg) line += c == '\n' ? ' ' : c;
        o << "# " << line << "\n";
        for (size_t i = 0; i < best.size(); ++i) o << best[i] << (i % 32 == 31 ? "\n" : " ");
        o << "\n";
        printf("%s\n", line.c_str());
        return 0;
    }
    if (mode != "run") return 3;
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    uint64_t cases = strtoull(argv[3], nullptr, 10);
    double time_s = atof(argv[4]);
    std::string out = argv[5], failf = argv[6];
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int d = open((failf + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(d, 2); dup2(d, 1);
        auto t0 = std::chrono::steady_clock::now();
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        uint64_t evals = 0, disc = 0, i = 0;
        bool timed = false;
        for (; i < cases; ++i) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > time_s) { timed = true; break; }
            uint64_t st = seed * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 12345;
            splitmix(st);
            Src s(st, sh); Ctx c; c.labels = &labels;
            c.verbose = samples.size() < 2 && (i % 37) == 20;
            try { run_one(prop, s, c); }
            catch (Fail& f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->status = 1; _exit(7); }
            catch (Discard&) { ++disc; sh->discards = disc; sh->cases = i + 1; continue; }
            catch (std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", e.what()); sh->status = 1; _exit(7); }
            ++evals;
            if (c.nontriv) {
                uint64_t h = 1469598103934665603ULL;
                for (size_t k = 0; k < sh->n; ++k) { h ^= sh->choices[k]; h *= 1099511628211ULL; h ^= h >> 29; }
                distinct.insert(h);
                if (c.verbose && !c.text.empty()) samples.push_back(c.text);
            }
            sh->cases = i + 1;
        }
        std::ofstream o(out);
        o << "{\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << distinct.size()
          << ",\"timed_out\":" << (timed ? "true" : "false") << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels) { o << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto& t : samples) { o << (first ? "" : ",") << "\"" << json_escape(t.substr(0, 1500)) << "\""; first = false; }
        o << "]}\n"; o.close();
        sh->status = 2;
        _exit(0);
    }
    int st = 0; uint64_t last = 0; auto tl = std::chrono::steady_clock::now(); bool hang = false;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (sh->cases != last) { last = sh->cases; tl = std::chrono::steady_clock::now(); }
        if (std::chrono::steady_clock::now() - tl > std::chrono::seconds(opt.hang_s)) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(2000);
    }
    if (!hang && sh->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    std::string msg;
    if (hang) msg = "no answer within " + std::to_string(opt.hang_s) + " s (hang)";
    else if (sh->status == 1) msg = sh->msg;
    else if (WIFSIGNALED(st)) msg = "crashed with signal " + std::to_string(WTERMSIG(st));
    else msg = "crashed (exit " + std::to_string(WEXITSTATUS(st)) + ": assertion or sanitizer report)";
    std::ofstream o(failf);
    std::string line; for (char c : msg) line += c == '\n' ? ' ' : c;
    o << "# " << line << "\n";
    for (size_t i = 0; i < sh->n && i < MAXC; ++i) o << sh->choices[i] << (i % 32 == 31 ? "\n" : " ");
    o << "\n"; o.close();
    std::ofstream oo(out);
    oo << "{\"evaluations\":" << sh->cases + 1 << ",\"discarded\":" << sh->discards << ",\"distinct_nontrivial\":0,\"timed_out\":false,\"labels\":{},\"samples\":[]}\n";
    return 1;
}

} // namespace pbt

#define PBT_MAIN(fn, ...) \
    int main(int argc, char** argv) { return pbt::main_impl(argc, argv, fn, pbt::Options{__VA_ARGS__}); }
#define REQUIRE(cond, ...) \
    do { if (!(cond)) { std::stringstream _ss; _ss << "check failed: " #cond " | " << __VA_ARGS__; pbt::fail(_ss.str()); } } while (0)
