#!/usr/bin/env python3
"""Driver of the checks:  run.py <ID> quick|thorough   |   run.py replay <ID> <file>   |   run.py list

Builds the property's harness from /repo's current working tree, runs it over generated cases on all cores, shrinks and
replays a failure, and writes evidence/<ID>.json. Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no
answer (the harness does not build or cannot run)."""
import sys, os, json, subprocess, hashlib, time, glob, shutil, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PDAAAL_REPO", "/repo")
sys.path.insert(0, V)
from registry import REG

CXX = ["g++", "-std=gnu++20", "-w", "-g1", "-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
LIB_SRC = ["src/include/pdaaal/internal/PDA.cpp", "src/include/pdaaal/internal/Reducer.cpp", "src/include/pdaaal/parsing/NfaParser.cpp"]
LIBS = ["-labsl_raw_hash_set", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_throw_delegate", "-labsl_raw_logging_internal"]
BUILD = os.path.join(V, ".build")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:malloc_fill_byte=190:max_malloc_fill_size=65536:handle_abort=0",
           LC_ALL="C", TMPDIR=os.environ.get("TMPDIR", "/tmp"))
WORKERS = 8

def incs():
    return ["-I" + os.path.join(V, "shim"), "-I" + os.path.join(BUILD, "gen"), "-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/pdaaal-bin"), "-I" + os.path.join(REPO, "src/include/pdaaal")]

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(V, "harness"), os.path.join(V, "shim")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
    return h

def build(pid, part):
    """Builds one binary of the property; returns (path, error)."""
    spec = REG[pid]["parts"][part]
    src = [os.path.join(V, "harness/props", spec["file"])]
    if spec.get("lib", True): src += [os.path.join(REPO, s) for s in LIB_SRC]
    src += [os.path.join(REPO, s) for s in spec.get("src", [])]
    cmd = spec.get("cxx", CXX) + spec.get("flags", []) + incs() + src + LIBS + spec.get("libs", [])
    h = TREE.copy(); h.update(json.dumps(cmd).encode())
    out = os.path.join(BUILD, "%s_%d_%s" % (pid, part, h.hexdigest()[:16]))
    if os.path.exists(out): return out, None
    for old in glob.glob(os.path.join(BUILD, "%s_%d_*" % (pid, part))):
        try: os.remove(old)
        except OSError: pass
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout[-4000:]
    os.rename(tmp, out)
    return out, None

def version_header():
    d = os.path.join(BUILD, "gen"); os.makedirs(d, exist_ok=True)
    txt = '#define PDAAAL_VERSION_STR "0"\n#define PDAAAL_GIT_HASH_STR "0"\n'
    f = os.path.join(d, "version.h")
    if not os.path.exists(f) or open(f).read() != txt: open(f, "w").write(txt)

def noaslr():
    """Address randomisation off, where allowed, so that hash-table order does not vary between runs."""
    try:
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: return ["setarch", "-R"]
    except OSError: pass
    return []

def replay_fails(binary, path, n):
    k = 0
    for _ in range(n):
        try: r = subprocess.run(PRE + [binary, "replay", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
        except subprocess.TimeoutExpired: k += 1; continue
        if r.returncode == 1: k += 1
    return k

def seed_of(base, part, w, rnd): return (base * 1000003 + part * 7919 + w * 101 + rnd * 15485863 + 17) % (1 << 62)

def confirm(pid, part, binary, work, failf, seed, cases):
    """Shrinks and replays; returns the path of a confirmed replay file or None."""
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    final = os.path.join(V, "replays", "%s-%d.txt" % (pid, part))
    shr = failf + ".shrunk"
    try: subprocess.run(PRE + [binary, "shrink", failf, shr, "40"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired: pass
    for f in (shr, failf):
        if os.path.exists(f) and replay_fails(binary, f, 3) == 3:
            body = open(f).read()
            shown = subprocess.run(PRE + [binary, "show", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180).stdout.decode("utf8", "replace")
            with open(final, "w") as o:
                o.write("# property %s part %d\n# replay: python3 /verif/run.py replay %s %s\n" % (pid, part, pid, final))
                o.write(body)
                o.write("".join("# " + l + "\n" for l in shown[:6000].splitlines()))
            return final
    # not reproducible as a single case (depends on what earlier cases left behind): run the worker again
    for i in range(2):
        o, f = os.path.join(work, "again%d.json" % i), os.path.join(work, "again%d.txt" % i)
        if os.path.exists(f): os.remove(f)
        r = subprocess.run(PRE + [binary, "run", str(seed), str(cases), "600", o, f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 1 or not os.path.exists(f): return None
    with open(final, "w") as o:
        o.write("# property %s part %d\n# only as a sequence of cases: BIN run %d %d\n" % (pid, part, seed, cases)); o.write(open(failf).read())
    return final

def load_findings():
    res = {}
    for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        line = line.strip()
        if line.startswith("finding:"):
            d = dict(x.split("=", 1) for x in line.split()[1:3])
            res.setdefault(d["property"], {})[d["key"]] = line.split(None, 3)[3]
    return res

def main():
    global TREE, PRE
    if len(sys.argv) == 2 and sys.argv[1] == "list":
        print("\n".join(REG)); return 0
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); version_header()
    TREE = tree_hash(); PRE = noaslr()
    if sys.argv[1] == "replay":
        pid, f = sys.argv[2], sys.argv[3]
        part = 0
        for l in open(f):
            if l.startswith("# property "): part = int(l.split()[4]); break
        b, err = build(pid, part)
        if err: print(err); return 2
        return subprocess.run(PRE + [b, "show", f], env=ENV).returncode
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = REG[pid]
    work = os.path.join(BUILD, "work_%s_%d" % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    try: return check(pid, tier, seed, spec, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def check(pid, tier, seed, spec, work, t0):
    parts = spec["parts"]
    with ThreadPoolExecutor(WORKERS) as ex: built = list(ex.map(lambda k: build(pid, k), range(len(parts))))
    bad = [(k, e) for k, (b, e) in enumerate(built) if e]
    if bad:
        print("BUILD FAILED property=%s part=%d\n%s" % (pid, bad[0][0], bad[0][1])); return 2
    tb = time.time()
    known = load_findings().get(pid, {})
    # tasks: every part is split over several workers; a thorough run does the same with more cases
    tasks = []
    for k, p in enumerate(parts):
        if p.get("finding"): continue
        total = p["thorough"] if tier == "thorough" else p["quick"]
        n = p.get("workers", max(1, WORKERS // max(1, len([q for q in parts if not q.get("finding")]))))
        if tier == "thorough": n *= 4
        for w in range(n): tasks.append((k, w, max(1, total // n)))
    cap = 600 if tier == "thorough" else 200
    state = {"stop": False, "fail": None}
    procs = set()
    def run(t):
        k, w, cases = t
        if state["stop"]: return None
        b = built[k][0]; sd = seed_of(seed, k, w, 0)
        o, f = os.path.join(work, "o_%d_%d.json" % (k, w)), os.path.join(work, "f_%d_%d.txt" % (k, w))
        left = max(10, cap - (time.time() - tb))
        pr = subprocess.Popen(PRE + [b, "run", str(sd), str(cases), "%.0f" % left, o, f], env=dict(ENV, PBT_SCRATCH=work), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.add(pr); rc = pr.wait(); procs.discard(pr)
        if rc == 1 and os.path.exists(f) and not state["stop"]:
            state["stop"] = True; state["fail"] = (k, w, cases, sd, f)
            for q in list(procs):
                try: os.killpg(q.pid, signal.SIGKILL)
                except OSError: pass
        try: return (k, rc, json.load(open(o)))
        except Exception: return (k, rc, None)
    with ThreadPoolExecutor(WORKERS) as ex: results = [r for r in ex.map(run, tasks) if r]
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": spec["rule"], "samples": [], "labels": {}, "parts": {}}
    for k, rc, o in results:
        if not o: continue
        name = parts[k].get("name", "part %d" % k)
        ev["evaluations"] += o["evaluations"]; ev["distinct_nontrivial"] += o["distinct_nontrivial"]; ev["discarded"] += o["discarded"]
        pe = ev["parts"].setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "stopped_by_time": 0})
        pe["evaluations"] += o["evaluations"]; pe["distinct_nontrivial"] += o["distinct_nontrivial"]; pe["stopped_by_time"] += 1 if o["timed_out"] else 0
        for l, c in o["labels"].items(): ev["labels"][l] = ev["labels"].get(l, 0) + c
        if len(ev["samples"]) < 12: ev["samples"] += o["samples"][:max(1, 2 if len(parts) < 5 else 1)]
    rc, viol = 0, 0
    if state["fail"]:
        k, w, cases, sd, f = state["fail"]
        path = confirm(pid, k, built[k][0], work, f, sd, cases)
        if path:
            viol = 1; rc = 1
            print(open(path).read()[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("a failure did not reproduce (property=%s part=%d): %s" % (pid, k, open(f).read()[:300])); rc = 2
    broken = [r for r in results if r[1] not in (0, 1)]
    if rc == 0 and broken: print("worker failed: %s" % (broken[0],)); rc = 2
    # fixed inputs of recorded findings
    ev["known_findings"] = []
    for k, p in enumerate(parts):
        if not p.get("finding"): continue
        fails = replay_fails(built[k][0], "/dev/null", 3) == 3
        ev["evaluations"] += 1
        if not fails: continue
        if p["finding"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[p["finding"]])); ev["known_findings"].append(p["finding"])
        else:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            path = os.path.join(V, "replays", "%s-%d.txt" % (pid, k)); open(path, "w").write("# property %s part %d\n" % (pid, k))
            print("VIOLATION property=%s replay=%s" % (pid, path)); rc = 1; viol += 1
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev["build_s"] = round(tb - t0, 1)
    out = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": ev, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(out, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s (%.1f s build), exit %d" % (pid, tier, seed, ev["evaluations"], ev["distinct_nontrivial"], ev["discarded"], out["wall_s"], ev["build_s"], rc))
    return rc

if __name__ == "__main__":
    sys.exit(main())
