#!/usr/bin/env python3
"""Builds a property's simulator from /repo's working tree, runs the seeded search, minimises and gates what it
finds, and writes evidence/<property>.json.

  check.py C01 [quick|thorough]      the registered checks
  check.py replay <file>             re-executes a replay file
  check.py build C01                 build only
  check.py determinism C01 [runs]    same seeds, two processes, other worker counts: event logs must agree
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSPBB_REPO", "/repo")
BUILD = os.environ.get("DSPSIM_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4

BASE = ["g++", "-std=c++20", "-w", "-pthread", "-fno-strict-overflow"]
INCLUDES = ["-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
WRAP = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"]

# How a program is compiled. "lib" flags apply to the translation units that contain library code.
VARIANTS = {
    "base": {"lib": ["-O2"], "core": ["-O2"], "link": []},
    "avx2": {"lib": ["-O3", "-march=x86-64-v3"], "core": ["-O2"], "link": []},
    "asan": {"lib": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
             "core": ["-O2", "-DSIM_ASAN=1"], "link": ["-fsanitize=address"]},
    "tsan": {"lib": ["-O1", "-fsanitize=thread"], "core": ["-O2"], "link": []},
}

sys.path.insert(0, VERIF)
from properties_config import CONFIG  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tree_hash(extra=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include")] + [os.path.join(REPO, x[5:]) if x.startswith("repo:") else os.path.join(VERIF, x) for x in extra]
    for d, ds, fs in (w for root in roots for w in os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    for d in ("sim", "w"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if f.endswith(".hpp"):
                with open(os.path.join(VERIF, d, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cpu_has_avx2():
    try:
        with open("/proc/cpuinfo") as f:
            t = f.read()
        return all(x in t for x in (" avx2", " fma", " bmi2"))
    except OSError:
        return False


def build(cfg, variants):
    """Compiles every translation unit of the given variants in parallel; returns {variant: binary}."""
    th = tree_hash()
    thx = tree_hash(cfg["trees"]) if cfg.get("trees") else None  # also what these trees contain
    jobs, links = [], []
    for v in variants:
        var = VARIANTS[v]
        out = os.path.join(BUILD, cfg["binary"], v)
        os.makedirs(out, exist_ok=True)
        objdir = os.path.join(BUILD, "obj", v)  # shared by the programs
        os.makedirs(objdir, exist_ok=True)
        objs = []
        units = []
        for src, parts in cfg["lib_sources"]:
            for p in range(parts) if parts else [None]:
                units.append((src, p, True))
        # The seam for threads: simulated ones, or the proof that there is only one.
        for src in cfg["core_sources"] + ["sim/sched.cpp" if v == "tsan" else "sim/solo.cpp"]:
            units.append((src, None, False))
        for src, part, lib in units:
            flags = (var["lib"] if lib else var["core"]) + (cfg.get("flags", []) if src.startswith("w/") else [])
            if part is not None:
                flags = flags + ["-DPART=%d" % part]
            if v == "tsan":
                flags = flags + ["-DSIM_TSAN=1"]
            cmd = BASE + flags + INCLUDES + ["-I", VERIF]
            with open(os.path.join(VERIF, src), "rb") as fh:
                key = hashlib.sha256(((thx if thx and src.startswith("w/") else th) + " ".join(cmd)).encode() + fh.read()).hexdigest()[:24]
            obj = os.path.join(objdir, "%s%s-%s.o" % (os.path.basename(src)[:-4], "" if part is None else "-%d" % part, key))
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append((cmd + ["-c", os.path.join(VERIF, src), "-o", obj], obj, 0 if part == 0 or not lib else 1))
        exe = os.path.join(out, "sim")
        links.append((v, BASE + ["-no-pie", "-rdynamic"] + objs + ["-o", exe] + var["link"] +
                      ["-Wl," + ",".join("--wrap=" + w for w in WRAP + (["memcpy", "memmove", "memset", "memcmp", "syscall"] if v == "tsan" else []))] + ["-lpthread"], exe, objs, out))
    jobs.sort(key=lambda j: -j[2])

    def one(job):
        tmp = job[1] + ".%d.tmp" % os.getpid()
        cmd = job[0][:-1] + [tmp]
        r = sh(cmd, cwd=VERIF)
        if r.returncode == 0:
            os.rename(tmp, job[1])
        return r, job

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r, job in ex.map(one, jobs):
            if r.returncode != 0:
                sys.stderr.write(" ".join(job[0]) + "\n" + r.stderr[-6000:] + "\n")
                print("ERROR: build failed")
                sys.exit(2)
    exes = {}
    for v, cmd, exe, objs, out in links:
        # Always relink: cheap, and no stale binary can be run.
        r = sh(cmd)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:] + "\n")
            print("ERROR: link failed")
            sys.exit(2)
        # Objects of earlier versions of the same units.
        keep = set(objs)
        stems = {os.path.basename(o).rsplit("-", 1)[0] for o in objs}
        objdir = os.path.join(BUILD, "obj", v)
        for f in os.listdir(objdir):
            if f.endswith(".o") and f.rsplit("-", 1)[0] in stems and os.path.join(objdir, f) not in keep:
                os.unlink(os.path.join(objdir, f))
        exes[v] = exe
    return exes


def env_for(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allow_user_poisoning=1:detect_stack_use_after_return=0:symbolize=0:allocator_may_return_null=1"
    return e


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> class=<class of failure> :: <what fails>' / 'fixed: ...' (suppresses nothing)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s class=" % prop):
                body = line.split("class=", 1)[1]
                m, what = body.split(" :: ", 1)
                out.append((m.strip(), what.strip()))
    return out


def known_args(prop):
    return [a for m, _ in load_known(prop) for a in ("--known", m)]


def run_check(prop, tier):
    t0 = time.time()
    cfg = CONFIG[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    variants = list(cfg["variants"][tier])
    if not cpu_has_avx2():
        variants = [v for v in variants if v != "avx2"] or ["base"]
    exes = build(cfg, variants)
    t_build = time.time() - t0
    budget = float(os.environ.get("DSPSIM_TIME", cfg["time"][tier]))
    out = os.path.join(BUILD, cfg["binary"], "out-" + tier)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    known = load_known(prop)
    procs = []
    # Workers are split between the variants; worker w of a variant explores the run indices w, w+W, w+2W, ...
    workers = max(JOBS, len(variants))
    share = {v: [] for v in variants}
    for w in range(workers):
        share[variants[w % len(variants)]].append(w)
    for v, ws in share.items():
        for k, w in enumerate(ws):
            o = os.path.join(out, "%s-%d.json" % (v, k))
            cmd = [exes[v], "run", "--seed", str(seed), "--start", str(k), "--stride", str(len(ws)),
                   "--time", str(budget), "--out", o, "--thorough", "1" if tier == "thorough" else "0",
                   "--cpu-ms", str(cfg.get("cpu_ms", 20000))]
            if os.environ.get("DSPSIM_MAX"):
                cmd += ["--max", os.environ["DSPSIM_MAX"]]
            cmd += known_args(prop)
            if os.environ.get("DSPSIM_HASHES"):
                cmd += ["--hashes", "1"]
            procs.append((v, o, subprocess.Popen(cmd, env=env_for(v), stdout=subprocess.DEVNULL)))
    results = []
    errors = []
    for v, o, p in procs:
        rc = p.wait()
        try:
            with open(o) as f:
                r = json.load(f)
        except (OSError, ValueError):
            errors.append("%s: worker ended with %d and no result" % (o, rc))
            continue
        r["variant"], r["path"] = v, o
        results.append(r)
        if r["error"]:
            errors.append("%s: %s" % (v, r["error"]))
    wall_sim = max([r["wall"] for r in results] or [0])

    replay = None
    vios = sorted([r for r in results if r["violation"]], key=lambda r: r["violation_index"])
    gate_errors = []
    t_min0 = time.time()
    for r in vios[:6]:
        replay, why = confirm(prop, r, exes[r["variant"]], tier, time.time() - t_min0)
        if replay:
            break
        gate_errors.append(why)
    runs = sum(r["runs"] for r in results)
    counters = {}
    sets = {}
    samples = []
    for r in results:
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for k, hs in r["sets"].items():
            # The same simulation under two instruction sets is one simulation.
            sets.setdefault(k, set()).update(hs)
        samples += r["sample_runs"][:2]
    faults = {k: v for k, v in counters.items() if k.startswith("fault.")}
    nsamp = sum(r["samples"] for r in results)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sets.get("runs", ())),
        "rule": cfg["rule"],
        "samples": samples[:12],
        "runs_per_hour": round(runs / max(wall_sim, 1e-3) * 3600),
        "seeds_per_hour": round(runs / max(wall_sim, 1e-3) * 3600),
        "events": sum(r["events"] for r in results),
        "choices_drawn": sum(r["choices"] for r in results),
        "faults_injected": faults,
        "reach": {k: v for k, v in counters.items() if not k.startswith("fault.")},
        "distinct_measures": {k: len(v) for k, v in sets.items() if k != "runs"},
        "determinism_rechecked_runs": sum(r["rechecked"] for r in results),
        "variants": {v: sum(r["runs"] for r in results if r["variant"] == v) for v in variants},
        "real_components": cfg["real"],
        "stub_components": cfg["stub"],
        "build_s": round(t_build, 1),
        "workers": len(results),
    }
    if nsamp:
        cov["simulated_samples"] = nsamp
        cov["simulated_time_s_at_48kHz"] = round(nsamp / 48000.0, 1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if replay else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for m, what in known:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, what, counters.get("known_finding." + m, 0)))
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s of simulation, build %.1f s; faults %s" %
          (prop, tier, runs, cov["distinct_nontrivial"], wall_sim, t_build, faults))
    if replay:
        return 1
    if vios or errors:
        for e in errors + gate_errors:
            print("ERROR: " + e)
        return 2
    missing = [k for k in cfg.get("must_reach", []) if not counters.get(k)]
    if missing and runs > 2000:
        print("ERROR: never reached: " + ", ".join(missing))
        return 2
    return 0


def confirm(prop, r, exe, tier, spent):
    """Minimise, then replay in fresh processes; only an exactly reproducing failure is reported."""
    src = r["path"] + ".violation"
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    mini = r["path"] + ".min"
    e = env_for(r["variant"])
    budget = max(3.0, (90.0 if tier == "thorough" else 25.0) - spent)
    final = None
    if not r["violation"].startswith("hang"):
        m = sh([exe, "minimise", "--in", src, "--out", mini, "--time", str(budget)] + known_args(prop), env=e)
        sys.stdout.write(m.stdout)
        if m.returncode == 1:
            final = mini
    for cand in ([final] if final else []) + [src]:
        ok = True
        for _ in range(2):
            g = sh([exe, "replay", "--in", cand] + known_args(prop), env=e)
            if g.returncode != 1:
                ok = False
        if ok:
            name = "%s-%s.replay" % (prop, hashlib.sha256(open(cand, "rb").read()).hexdigest()[:12])
            dst = os.path.join(VERIF, "replays", name)
            with open(cand) as f:
                body = f.read()
            with open(dst, "w") as f:
                f.write("variant %s\n" % r["variant"] + body)
            print("  " + r["violation"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            return dst, None
    return None, "violation in run %d (%s) does not replay identically" % (r["violation_index"], r["violation"][:200])


def replay(path):
    body = open(path).read().splitlines()
    variant = body[0].split()[1]
    prop = body[1].split()[1]
    cfg = CONFIG[prop]
    exe = build(cfg, [variant])[variant]
    r = sh([exe, "replay", "--in", path, "--stderr", "1"] + known_args(prop), env=env_for(variant))
    sys.stdout.write(r.stdout)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif r.returncode == 4:
        print("fails, but differently from the recording")
    return r.returncode


def determinism(prop, runs):
    cfg = CONFIG[prop]
    variants = cfg["variants"]["quick"]
    exes = build(cfg, variants)
    bad = 0
    for v, exe in exes.items():
        logs = []
        for (workers, tag) in ((4, "a"), (8, "b"), (3, "c")):
            allh = {}
            ps = []
            for w in range(workers):
                o = os.path.join(BUILD, cfg["binary"], "det-%s-%s-%d" % (v, tag, w))
                n = len(range(w, runs, workers))
                ps.append((o, subprocess.Popen([exe, "run", "--seed", os.environ.get("VERIF_SEED", "1"), "--start", str(w), "--stride", str(workers), "--max", str(n), "--time", "3600", "--out", o, "--hashes", "1", "--cpu-ms", str(cfg.get("cpu_ms", 20000))] + known_args(prop), env=env_for(v))))
            for o, p in ps:
                p.wait()
                for line in open(o + ".hashes"):
                    i, rest = line.split(" ", 1)
                    allh[int(i)] = rest
                os.unlink(o + ".hashes")
                os.unlink(o)
            logs.append(allh)
        d = [i for i in logs[0] if not (logs[0][i] == logs[1].get(i) == logs[2].get(i))]
        print("%s %s: %d seeds x 3 executions in %d processes, %d differ %s" % (prop, v, len(logs[0]), 15, len(d), d[:5]))
        bad += len(d)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "determinism":
        return determinism(a[1], int(a[2]) if len(a) > 2 else 400)
    if a[0] == "build":
        for p in (sorted(CONFIG) if a[1:] == ["all"] else a[1:]):
            t = time.time()
            print(p, build(CONFIG[p], CONFIG[p]["variants"]["quick"]), "%.1f s" % (time.time() - t))
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
