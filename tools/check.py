#!/usr/bin/env python3
"""Runs the monitors of one property and writes its evidence file.

  python3 tools/check.py <property> [--tier quick|thorough] [--seed N]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no answer."""
import argparse, collections, concurrent.futures as cf, json, os, shlex, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from props import PROPS

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:second_deadlock_stack=1", LC_ALL="C")


def crash_line(err, rc):
    for l in err.splitlines():
        if "runtime error:" in l or "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or "Assertion" in l or "terminate called" in l:
            return l.strip()[:400]
    return ("exit status %d: " % rc) + err[-300:].replace("\n", " ")


def run_range(exe, job, seed, a, b, deadline, percase):
    """-> list of events, merged stats"""
    out = {"V": [], "U": [], "F": [], "stats": [], "ran": 0}
    cur = a
    while cur < b:
        if time.time() > deadline:
            out["cut"] = b - cur
            break
        cmd = [exe, "--mode", job["mode"], "--seed", str(seed), "--from", str(cur), "--to", str(b)]
        for k, v in job.get("opts", {}).items():
            cmd += ["--opt", "%s=%s" % (k, v)]
        limit = max(percase, percase / 10 * (b - cur))
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=limit, env=ENV, cwd="/tmp")
            so, se, rc, hang = p.stdout, p.stderr, p.returncode, False
        except subprocess.TimeoutExpired as e:
            so = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            se, rc, hang = "", -1, True
        last, done = cur, False
        for l in so.splitlines():
            if l.startswith("B "):
                last = int(l.split()[1])
            elif l[:2] in ("V ", "U ", "F ") and len(l.split(" ")) > 2:
                out[l[0]].append((job, seed, l[2:]))
            elif l.startswith("S "):
                out["stats"].append(json.loads(l[2:]))
                done = True
        if rc == 0 and done:
            out["ran"] += b - cur
            return out
        out["ran"] += last - cur + 1
        if hang:
            out["V"].append((job, seed, "%d hang no result within %d s" % (last, limit)))
            cur = last + 1
            if len(out["V"]) > 3:
                break
            continue
        if rc == 2 and "no mode" in se:
            raise RuntimeError(se)
        out["V"].append((job, seed, "%d crash %s" % (last, crash_line(se, rc))))
        cur = last + 1
        if len(out["V"]) > 20:
            out["cut"] = b - cur
            break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget = (420 if tier == "quick" else 5400)
    try:
        exes = {}
        for j in P["jobs"]:
            key = (j.get("kind", "asan"), j["harness"])
            if key not in exes:
                exes[key] = B.build(key[0], [j["harness"]])
    except B.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tb = time.time() - t0
    deadline = time.time() + budget
    tasks = []
    for j in P["jobs"]:
        n = int((j["quick"] if tier == "quick" else j.get("thorough", j["quick"] * 20)) * a.scale)
        n = max(n, 1)
        chunk = max(1, min(j.get("chunk", 200), (n + NPROC * 3 - 1) // (NPROC * 3)))
        base = j.get("base", 0)
        for s in range(0, n, chunk):
            tasks.append((exes[(j.get("kind", "asan"), j["harness"])], j, base + s, base + min(n, s + chunk)))
    res = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(run_range, e, j, a.seed, s, t, deadline, j.get("percase", 120)) for e, j, s, t in tasks]
        for f in fs:
            res.append(f.result())
    V, U, F = [], [], []
    counts = collections.Counter()
    distinct = set()
    samples = []
    ran = cut = 0
    for r in res:
        V += r["V"]
        U += r["U"]
        F += r["F"]
        ran += r["ran"]
        cut += r.get("cut", 0)
        for s in r["stats"]:
            counts.update(s["counts"])
            distinct.update(s["distinct"])
            if len(samples) < 3:
                samples += s["samples"][:1]
    # fixed probes against the list of known findings
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == a.prop and k.get("status", "open") == "open":
                known[k["id"]] = k
    kprinted = set()
    probes = 0
    for job, seed, l in F:
        i, present, msg = (l.split(" ", 2) + [""])[:3]
        probes += 1
        if present == "1":
            if i in known:
                if i not in kprinted:
                    print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, i, known[i]["what"]))
                    kprinted.add(i)
            else:
                V.append((job, seed, "0 probe %s %s" % (i, msg)))
    rule = P["rule"]
    limit_u = max(5, int(0.02 * max(ran, 1)))
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": P.get("level", "exploration"),
        "coverage": {"evaluations": ran, "distinct_nontrivial": len(distinct), "rule": rule, "samples": samples[:3] or ["(none)"],
                     "observed": {k: counts[k] for k in sorted(counts) if not k.startswith("feat.")},
                     "features": {k[5:]: counts[k] for k in sorted(counts) if k.startswith("feat.")},
                     "unjudged": len(U), "unjudged_examples": [u[2][:200] for u in U[:5]], "not_run_in_time": cut,
                     "probes": probes, "known_findings_seen": sorted(kprinted), "build_s": round(tb, 1)},
        "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(V)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", a.prop + ".replay.sh")
    if V:
        with open(rp, "w") as f:
            f.write("#!/bin/bash\n# replays the violations of %s (seed %d)\ncd %s\n" % (a.prop, a.seed, VERIF))
            for job, seed, l in V[:20]:
                f.write("# %s\n" % l[:500])
                c = l.split(" ")[0]
                o = " ".join("--opt %s=%s" % kv for kv in job.get("opts", {}).items())
                f.write("$(python3 tools/build.py %s %s) --mode %s --seed %d --from %s --to %d --show %s\n" % (
                    job.get("kind", "asan"), shlex.quote(job["harness"]), job["mode"], seed, c, int(c) + 1, o))
    elif os.path.exists(rp):
        os.unlink(rp)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d unjudged, %d violations, build %.0f s, total %.0f s" % (
        a.prop, tier, a.seed, ran, len(distinct), len(U), len(V), tb, time.time() - t0))
    if V:
        for job, seed, l in V[:8]:
            print("  [%s] case %s" % (job["mode"], l[:400]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if ran == 0 or len(U) > limit_u and not P.get("unjudged_ok"):
        for u in U[:5]:
            print("  unjudged: " + u[2][:300])
        print("NO ANSWER: too little could be judged")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
