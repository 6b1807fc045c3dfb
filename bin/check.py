#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and run one property's search.

  check.py C07 [quick|thorough]     exit 0 held / 1 violated / 2 error of the check
  check.py --replay FILE            replay a minimised trace (exit 1 if it still fails)
"""
import fnmatch, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("SIM_CXX", "g++")
FLAGS = ["-std=c++20", "-g0", "-w", "-O1", "-DBOOST_DISABLE_ASSERTS", "-I" + REPO + "/include", "-isystem", "compat",
         "-include", "sim/assert_hook.hpp"]
JOBS = os.cpu_count() or 4

FAMILY_FILES = {
    "list": ["list_*.cpp", "slist_*.cpp"],
    "tree": ["avl_*.cpp", "bs_*.cpp", "rb_*.cpp", "sg_*.cpp", "splay_*.cpp", "treap_*.cpp"],
    "hash": ["hash_*.cpp"],
    "multi": ["multi_*.cpp"],
    "algo": ["algo_*.cpp"],
    "lalgo": ["lalgo_*.cpp"],
    "cost": ["cost_*.cpp"],
}
PROPS = json.load(open(os.path.join(VERIF, "bin", "props.json")))


def digest(paths):
    h = hashlib.sha256(" ".join([CXX] + FLAGS).encode())
    for root in paths:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def tus(families, only=None):
    out = ["sim/sim.cpp"]
    for fam in families:
        for g in FAMILY_FILES[fam]:
            out += sorted(os.path.relpath(p, VERIF) for p in glob.glob(os.path.join(VERIF, "cfg", g))
                          if not only or any(fnmatch.fnmatch(os.path.basename(p)[:-4], pat) for pat in only))
    return out


def build(families, only=None):
    key = digest([os.path.join(REPO, "include"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "cfg"), os.path.join(VERIF, "compat")])
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    for old in sorted(glob.glob(os.path.join(BUILD, "*")), key=os.path.getmtime)[:-3]:
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    os.utime(d)

    def one(tu):
        obj = os.path.join(d, os.path.basename(tu)[:-4] + ".o")
        if os.path.exists(obj):
            return tu, obj, None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + FLAGS + ["-c", tu, "-o", tmp], cwd=VERIF, capture_output=True, text=True)
        if r.returncode != 0:
            return tu, None, r.stderr
        os.replace(tmp, obj)
        return tu, obj, None

    objs, broken = [], []
    # the largest translation units first
    order = sorted(tus(families, only), key=lambda t: (not t.startswith("sim/"), "hash" not in t, "stateful" not in t, t))
    with ThreadPoolExecutor(JOBS) as ex:
        for tu, obj, err in ex.map(one, order):
            if obj:
                objs.append(obj)
            else:
                broken.append((tu, err))
    if not any(o.endswith("/sim.o") for o in objs):
        sys.stderr.write("the simulator core does not compile\n" + (broken[0][1] if broken else ""))
        sys.exit(2)
    tag = "-".join(families) + ("." + hashlib.sha256(" ".join(only).encode()).hexdigest()[:8] if only else "")
    binary = os.path.join(d, "sim-" + tag + ("-partial" if broken else ""))
    if not os.path.exists(binary):
        tmp = binary + ".%d.tmp" % os.getpid()
        subprocess.run([CXX] + sorted(objs) + ["-o", tmp], cwd=VERIF, check=True)
        os.replace(tmp, binary)
    return binary, broken, len(objs)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):].strip())
    return out


def replay(path):
    cfg = None
    for line in open(path):
        if line.startswith("cfg "):
            cfg = line.split()[1]
    if cfg.startswith("cost_"):               # these translation units hold several configurations each
        cfg = "cost_*"
    binary, _, _ = build([f for f in FAMILY_FILES], [cfg])
    return subprocess.run([binary, "--replay", path] + (["-v"] if "-v" in sys.argv else [])).returncode


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:2] == ["--setup"]:              # proves that the tool chain works; checks build what they need themselves
        subprocess.run([CXX] + FLAGS + ["-c", "sim/sim.cpp", "-o", "/dev/null"], cwd=VERIF, check=True)
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    t0 = time.time()
    fams = spec["families"]
    binary, broken, nobj = build(fams, spec.get("only"))
    build_s = time.time() - t0
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(outdir, "replays"), exist_ok=True)
    result = os.path.join(outdir, ".%s.result.json" % prop)
    if os.path.exists(result):
        os.remove(result)
    runs = spec["runs"] * (spec.get("thorough_factor", 20) if tier == "thorough" else 1)
    cap = 3 * 3600 if tier == "thorough" else 480
    r = subprocess.run([binary, "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(JOBS), "--cap", str(cap),
                        "--families", ",".join(fams), "--result", result, "--replaydir", os.path.join(outdir, "replays")], cwd=VERIF)
    if not os.path.exists(result):
        print("ERROR: the simulator ended with status %d and no result" % r.returncode)
        sys.exit(2)
    res = json.load(open(result))
    os.remove(result)
    per_h = int(res["runs"] / max(res["search_s"], 1e-6) * 3600)
    cov = {
        "evaluations": res["runs"],
        "distinct_nontrivial": res["distinct_states"],
        "rule": "One evaluation is one simulated run: a trace (configuration, workload, injected faults, preemption decisions) generated from one "
                "integer by the engine's generator and executed against the real headers with the reference model checked after every step. "
                "Counted as distinct and non-trivial: distinct observed container states (configuration, container, key sequence; the tree "
                "engine adds the shape) reached by the runs, counted through a 2^27-bit hash bitmap, so the count is a lower bound.",
        "samples": res["samples"],
        "seeds_per_hour": per_h,
        "simulated_time": {"unit": "simulator steps (the code under test has no clock)", "steps": res["steps"], "operations_executed": res["ops_done"],
                           "operations_not_enabled": res["ops_skipped"]},
        "faults_armed": res["faults_armed"],
        "faults_injected": res["faults_fired"],
        "user_callback_invocations": res["functor_calls"],
        "interleavings": {"measure": "distinct preemption sequences (which actor ran next at which yield site) of concurrent batches, hash bitmap 2^24",
                          "distinct": res["distinct_schedules"], "concurrent_batches": res["fiber_batches"], "yield_points_passed": res["yields"],
                          "preemptions": res["preemptions"]},
        "determinism": {"runs_executed_twice_at_different_worker_counts": res["determinism_compared"], "diverged": res["determinism_diverged"]},
        "probes": res["probes"],
        "configurations": res["configs"],
        "components": {"real": "all library code under /repo/include/boost/intrusive (containers, hooks, algorithms, iterators, value traits)",
                       "stub_or_seam": "user-side parts only: element types, comparison/hash/equality/priority/predicate functors, disposers, cloners, "
                                       "the self-relative pointer type, the memory arena, the assertion macros (documented customisation points)"},
        "build_s": round(build_s, 2), "search_s": round(res["search_s"], 2), "translation_units": nobj, "translation_units_not_built": [b[0] for b in broken],
    }
    viol = res["violation"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["g++ 13 -O1 compiles the headers faithfully", "the reference model in sim/*_engine.hpp states the documented behaviour",
                          "the run is a sample of the schedule, fault and history space, not an enumeration"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(outdir, prop + ".json"), "w"), indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %s, %d runs, %d steps, %d states, build %.1fs search %.1fs" % (prop, tier, res["verdict"], res["runs"], res["steps"], res["distinct_states"], build_s, res["search_s"]))
    for tu, err in broken:
        print("NOT BUILT: %s" % tu)
        sys.stderr.write("\n".join(l for l in err.splitlines() if "error" in l)[:2000] + "\n")
    if res["verdict"] == "violated":
        print("[%s] %s (config %s, operation %s, %d -> %d steps)" % (viol["tag"], viol["msg"], viol["cfg"], viol["op"], viol["orig_steps"], viol["min_steps"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        sys.exit(1)
    if res["verdict"] != "held":
        print("ERROR: %s" % res["verdict"])
        sys.exit(2)
    if broken and len(broken) * 2 > nobj:
        print("ERROR: %d translation units do not compile against this tree" % len(broken))
        sys.exit(2)
    if broken:
        print("note: held on everything explored; %d of %d translation units do not compile against this tree" % (len(broken), len(broken) + nobj))
    if res["runs"] < runs:
        print("note: stopped at the time cap after %d of %d runs" % (res["runs"], runs))
    sys.exit(0)


main()
