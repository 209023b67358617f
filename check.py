#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py C01                 quick tier (VERIF_TIER/VERIF_SEED respected)
  check.py C01 --tier thorough
  check.py --replay FILE       replays a violation exactly
  check.py --setup             builds every simulator binary
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B  # noqa: E402
import props as P  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")
QUICK_SECS = 14.0
THOROUGH_SECS = 600.0
NCPU = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(3)


def build_bins(names):
    """name -> executable, built from /repo's working tree"""
    out = {}

    def one(n):
        b = P.BINS[n]
        return n, B.build(n, b["sources"], b.get("groups", ()),
                          b.get("variant", "ship"), b.get("extra", ()),
                          b.get("core", True), b.get("core_extra_src", ()))
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for n, exe in ex.map(one, names):
            if exe is None:
                die("build of simulator binary %s failed" % n)
            out[n] = exe
    return out


def run(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, errors="replace")


def load_known(prop):
    """-> ({class: text}, [raw lines for the runtime])"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"\b0x[0-9a-f]{6,7}\b", text)))
    if not pcs:
        return ""
    r = run(["addr2line", "-e", exe, "-f", "-C", "-s", "-p"] + pcs)
    return "".join("#   %s %s\n" % (p, ln)
                   for p, ln in zip(pcs, r.stdout.splitlines())
                   if "??" not in ln)


def verdict(out):
    m = re.search(r"^VIOL prop=(\S+) cls=(\S+) hash=(\S+)", out, re.M)
    return m.groups() if m else None


def report(prop, exe, binname, case, seed, tier):
    """Minimise, gate and print a violation. Returns the replay path."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    # the failing run, as found, has to fail the same way twice
    a, b = run([exe, "replay", case]), run([exe, "replay", case])
    va, vb = verdict(a.stdout), verdict(b.stdout)
    if not va or va != vb or va[0] != prop:
        print(a.stdout[-2000:])
        print(b.stdout[-2000:])
        die("violation did not replay identically (found by seed %d)" % seed)
    tmp = case + ".min"
    r = run([exe, "min", case, tmp, "--secs=%d" % (15 if tier == "quick" else 60)])
    best = case
    if r.returncode in (0, 42) and os.path.exists(tmp):
        c, d = run([exe, "replay", tmp]), run([exe, "replay", tmp])
        vc, vd = verdict(c.stdout), verdict(d.stdout)
        if vc and vc == vd and vc[0] == prop and vc[1] == va[1]:
            best = tmp
    txt = open(best).read()
    v = run([exe, "replay", best, "--verbose"])
    dst = os.path.join(HERE, "replays", "%s-%s-%s.case" % (
        prop, va[1], hashlib.sha256(txt.encode()).hexdigest()[:10]))
    with open(dst, "w") as f:
        f.write(txt)
        f.write("# binary %s\n" % binname)
        f.write("# VERIF_SEED %d tier %s\n" % (seed, tier))
        f.write("# replay: python3 /verif/check.py --replay %s\n" % dst)
        f.write("# trace of the minimised run:\n")
        for ln in v.stdout.splitlines()[-120:]:
            f.write("#   " + ln + "\n")
        f.write(symbolise(exe, v.stdout))
    # final gate: the file that is reported reproduces in a fresh process
    e = run([exe, "replay", dst])
    ve = verdict(e.stdout)
    if not ve or ve[0] != prop or ve[1] != va[1]:
        die("replay file does not reproduce the violation")
    print("\n".join(v.stdout.splitlines()[-12:]))
    sys.stdout.write(symbolise(exe, v.stdout.splitlines()[-1]
                               if v.stdout.splitlines() else ""))
    return dst


def do_replay(path):
    txt = open(path).read()
    m = re.search(r"^# binary (\S+)", txt, re.M)
    if not m or m.group(1) not in P.BINS:
        die("replay file names no known simulator binary")
    exe = build_bins([m.group(1)])[m.group(1)]
    r = run([exe, "replay", path, "--verbose"])
    print(r.stdout)
    v = verdict(r.stdout)
    if v:
        print("VIOLATION property=%s replay=%s" % (v[0], path))
        sys.exit(1)
    sys.exit(0 if r.returncode == 0 else 3)


def selftest(prop, bins, spec, seed, n):
    """Same seeds, separate processes, different grouping: identical logs."""
    jobs = []
    for binname, harness, _ in spec["campaigns"]:
        exe = bins[binname]

        def seeds(frm, cnt, exe=exe, harness=harness):
            r = run([exe, "seed", "--prop=" + prop, "--harness=" + harness,
                     "--seed=%d" % (seed * 100), "--from=%d" % frm, "--n=%d" % cnt])
            return [ln for ln in r.stdout.splitlines() if ln.strip()]
        jobs.append((binname, harness, seeds))
    total = 0
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        futs = []
        for binname, harness, seeds in jobs:
            whole = ex.submit(seeds, 0, n)
            k = max(1, n // 8)
            parts = [ex.submit(seeds, i, min(k, n - i))
                     for i in range(0, n, k)]
            futs.append((binname, harness, whole, parts))
        for binname, harness, whole, parts in futs:
            # (each series ends at the first run that violates a property)
            a = whole.result()
            b = [ln for p in parts for ln in p.result()]
            last = int(a[-1].split()[0]) if a else 0
            b = [ln for ln in b if int(ln.split()[0]) <= last]
            if a != b or not a:
                for x, y in zip(a, b):
                    if x != y:
                        print("first difference: %r / %r" % (x, y))
                        break
                die("simulator is not deterministic (%s/%s)" % (binname,
                                                                harness))
            total += len(a)
    return total


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    o = ap.parse_args()
    if o.replay:
        do_replay(o.replay)
    if o.setup:
        build_bins(sorted(P.BINS))
        print("built %d simulator binaries" % len(P.BINS))
        return 0
    prop, tier, seed = o.prop, o.tier, o.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop not in P.PROPS:
        die("unknown property %s" % prop)
    spec = P.PROPS[prop]
    t0 = time.time()
    print("property %s tier %s VERIF_SEED %d" % (prop, tier, seed))
    bins = build_bins(sorted({c[0] for c in spec["campaigns"]}))
    t_build = time.time() - t0
    t1 = time.time()
    known = load_known(prop)
    det_runs = selftest(prop, bins, spec, seed, 400 if tier == "quick" else 4000)
    t_det = time.time() - t1
    budget = o.secs or (spec.get("secs", QUICK_SECS) if tier == "quick"
                        else THOROUGH_SECS)
    tmp = tempfile.mkdtemp(prefix="vsim-%s-" % prop)
    rc = 0
    try:
        rc = explore(prop, tier, seed, spec, bins, known, budget, tmp, t0,
                     t_build, det_runs, t_det)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def explore(prop, tier, seed, spec, bins, known, budget, tmp, t0, t_build,
            det_runs, t_det):
    kfile = os.path.join(tmp, "known")
    with open(kfile, "w") as f:
        for c in known:
            f.write("%s %s\n" % (prop, c))
    camps = spec["campaigns"]
    tot_w = sum(c[2] for c in camps)
    agg = dict(runs=0, nontrivial=0, abandoned=0, known=0, sim_ns=0, steps=0,
               switches=0, accesses=0)
    counters, per = {}, []
    hashes, states = set(), set()
    violation = None
    t_ex0 = time.time()
    for ci, (binname, harness, w) in enumerate(camps):
        exe = bins[binname]
        secs = budget * w / tot_w
        procs = []
        for k in range(NCPU):
            out = os.path.join(tmp, "c%d-%d" % (ci, k))
            cmd = [exe, "explore", "--prop=" + prop, "--harness=" + harness,
                   "--seed=%d" % (seed * 100 + ci), "--worker=%d" % k,
                   "--nworkers=%d" % NCPU, "--runs=1000000000",
                   "--secs=%.2f" % secs, "--out=" + out, "--known=" + kfile]
            procs.append((out, subprocess.Popen(
                cmd, stdout=open(out + ".txt", "w"),
                stderr=subprocess.STDOUT)))
        deadline = time.time() + secs + 60
        bad = None
        for out, p in procs:
            try:
                r = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                bad = (out, "timeout")
                continue
            if r == 42:
                violation = violation or (binname, exe, out + ".viol.case")
            elif r != 0:
                bad = (out, "exit %d" % r)
        cr = 0
        for out, p in procs:
            try:
                d = json.load(open(out + ".json"))
            except (OSError, ValueError):
                continue
            for key in agg:
                agg[key] += d.get(key, 0)
            cr += d.get("runs", 0)
            for key, v in d["counters"].items():
                counters[key] = counters.get(key, 0) + v
            for suffix, dst in ((".hash", hashes), (".state", states)):
                if os.path.exists(out + suffix) and len(dst) < 20000000:
                    with open(out + suffix, "rb") as f:
                        data = f.read()
                    n = len(data) // 8
                    dst.update(memoryview(data)[:n * 8].cast("Q"))
        per.append({"binary": binname, "harness": harness, "runs": cr})
        if violation:
            break
        if bad:
            print(open(bad[0] + ".txt").read()[-3000:])
            die("worker failed: %s" % bad[1])
    t_ex = time.time() - t_ex0
    # a few of the actual cases, written out
    samples = []
    for binname, harness, _ in camps[:2]:
        r = run([bins[binname], "sample", "--prop=" + prop,
                 "--harness=" + harness, "--seed=%d" % (seed * 100), "--n=2"])
        for s in re.split(r"\n(?=vsim-case )", r.stdout)[:2]:
            samples.append(s.strip()[:1500])
    desc = []
    for binname, harness, _ in camps:
        r = run([bins[binname], "list"])
        for ln in r.stdout.splitlines():
            if ln.startswith(harness + "|"):
                if ln not in desc:
                    desc.append(ln)
    runs = agg["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": " | ".join(desc) + " || distinct: different hash of the "
                "complete event log (operations, faults, upstream calls, "
                "context switches)",
        "samples": samples,
        "nontrivial_runs": agg["nontrivial"],
        "abandoned_runs": agg["abandoned"],
        "campaigns": per,
        "runs_per_hour": int(runs / max(t_ex, 1e-3) * 3600),
        "seeds": {"VERIF_SEED": seed,
                  "per_run": "run i of worker w uses the seed derived from "
                             "(VERIF_SEED, campaign, harness, property, index)",
                  "count": runs},
        "simulated_time_s": agg["sim_ns"] / 1e9,
        "scheduler_steps": agg["steps"],
        "context_switches": agg["switches"],
        "instrumented_memory_accesses": agg["accesses"],
        "faults_injected": {k[6:]: v for k, v in sorted(counters.items())
                            if k.startswith("fault:")},
        "probes": {k[6:]: v for k, v in sorted(counters.items())
                   if k.startswith("probe:")},
        "other_counters": {k: v for k, v in sorted(counters.items())
                           if not k.startswith(("fault:", "probe:"))},
        "distinct_abstract_states": len(states),
        "state_measure": "hash of the harness' model state after every "
                         "operation",
        "determinism_selftest": {
            "seeds_run_twice": det_runs, "mismatches": 0,
            "how": "every seed in two separate processes, at two different "
                   "groupings; event-log hashes compared"},
        "real_components": spec["real"],
        "stub_components": spec["stub"],
        "build_s": round(t_build, 2), "explore_s": round(t_ex, 2),
        "selftest_s": round(t_det, 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov,
          "assumptions": P.ASSUME + spec.get("assume", []),
          "wall_s": 0.0, "violations": 1 if violation else 0}
    path = None
    if violation:
        path = report(prop, violation[1], violation[0], violation[2], seed,
                      tier)
        ev["coverage"]["violation_replay"] = path
    for c, text in sorted(known.items()):
        if counters.get("known:%s %s" % (prop, c), 0) or True:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%d runs (%d distinct non-trivial of %d), %.0f runs/h, %d abstract "
          "states, faults %s" % (runs, len(hashes), agg["nontrivial"],
                                 cov["runs_per_hour"], len(states),
                                 cov["faults_injected"]))
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if runs < 100 or agg["nontrivial"] == 0:
        die("explored next to nothing (%d runs)" % runs)
    print("property %s held on everything explored (%.1f s)" % (
        prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
