#!/usr/bin/env python3
"""Decide one property by seeded simulation.  Usage: check.py PROPERTY [quick|thorough] | check.py replay FILE
exit 0: held on everything explored; 1: violation (a VIOLATION line is printed); 2: the check itself failed."""
import json, os, re, shutil, signal, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import props  # noqa: E402

ENV = dict(os.environ, MKL_THREADING_LAYER="SEQUENTIAL", MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE",
           MKL_DYNAMIC="FALSE", ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=1",
           LC_ALL="C", TZ="UTC")
NW = 8


def build(variant, needed):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "build.py"), variant], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        print("%s: the %s simulator does not build from /repo's working tree" % ("ERROR" if needed else "NOTE", variant))
        if needed:
            sys.exit(2)
        return None
    return r.stdout.strip().splitlines()[-1]


def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def crashed(rc):
    return rc in (99, 77) or rc < 0 or rc >= 128


EXE = {}            # variant -> simulator


def variant_of(f):
    """A plan belongs to the backend it was found on: the file's suffix says which."""
    return "builtin" if ".builtin." in os.path.basename(f) else "mkl"


def replay_kind(exe, f):
    """-> (kind, message) or None.  Every confirmation is a fresh process."""
    rc, out, err = run([exe, "replay", f], 300)
    if crashed(rc):
        m = re.search(r"(SIM-HANG.*|ERROR: AddressSanitizer.*|runtime error.*)", err)
        where = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) (/repo/\S+)", err)
        return "crash", (m.group(1)[:200] if m else "the process ended with %d" % rc) + (" in %s (%s)" % where.groups() if where else "")
    if rc == 1:
        v = re.findall(r"^VIOL (\S+) (\S+) (op=.*)$", out, re.M)
        if v:
            return v[0][1], v[0][2]
    if rc not in (0, 1):
        print("NOTE: replay of %s ended with %d: %s" % (f, rc, err[-300:]))
    return None


def replay(f):
    v = variant_of(f)
    EXE[v] = build(v, True)
    k = replay_kind(EXE[v], f)
    print("%s: %s" % k if k else "holds")
    return 1 if k else 0


def main():
    pid = sys.argv[1]
    if pid == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.SPEC[pid]
    t0 = time.time()
    variants = props.variants(pid)          # the first is the one the property is decided on; others add to it
    for i, (v, _) in enumerate(variants):
        e = build(v, i == 0)
        if e: EXE[v] = e
    build_s = time.time() - t0
    secs = float(os.environ.get("SIM_SECONDS", spec.get(tier, 60 if tier == "quick" else 600)))
    out = tempfile.mkdtemp(prefix="osqpsim-%s-" % pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        return decide(pid, tier, seed, spec, [(v, n) for v, n in variants if v in EXE], secs, out, rdir, t0, build_s)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def decide(pid, tier, seed, spec, variants, secs, out, rdir, t0, build_s):
    base = (seed * 1000003 + 17) % (1 << 40)
    # 0. known findings: replayed first; each one that still fails is announced, and only its own case is excused
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) replay=(\S+) kind=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                f = os.path.join(VERIF, m.group(2))
                k = replay_kind(EXE[variant_of(f)], f) if variant_of(f) in EXE else None
                known.append((m.group(3), m.group(4)))
                if k and k[0] == m.group(3):
                    print("KNOWN-FINDING: property=%s %s" % (pid, m.group(4)))
    # 1. regression plans: minimised plans of defects met before
    corpus = os.path.join(VERIF, "corpus", pid)
    plans = sorted(os.path.join(corpus, f) for f in os.listdir(corpus)) if os.path.isdir(corpus) else []
    found = []          # (kind, message, case file)
    plans = [f for f in plans if variant_of(f) in EXE]
    for f in plans:
        k = replay_kind(EXE[variant_of(f)], f)
        if k:
            found.append((k[0], k[1], f))
            break
    # 2. seeded search
    procs = []
    t1 = time.time()
    if not found:
        for v, n in variants:
            for w in range(n):
                d = os.path.join(out, v + str(w)); os.makedirs(d)
                so, se = open(d + "/out", "w"), open(d + "/err", "w")
                p = subprocess.Popen([EXE[v], "work", pid, str(base + w), str(n), "1000000000", str(secs), d, d + "/cur", "3"], env=ENV, stdout=so, stderr=se)
                procs.append((p, d, v))
    deadline = time.time() + secs + 120
    stats, notes, candidates, broken = [], [], [], []
    for p, d, variant in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            candidates.append(("crash", d + "/cur", None, variant))
            continue
        for line in open(d + "/out", errors="replace"):
            try:
                if line.startswith("V "):
                    v = json.loads(line[2:]); candidates.append((v["kind"], v["file"], v["seed"], variant))
                elif line.startswith("N "):
                    notes.append(json.loads(line[2:]))
                elif line.startswith("S "):
                    stats.append((variant, json.loads(line[2:])))
            except ValueError:
                pass
        if crashed(p.returncode):
            candidates.append(("crash", d + "/cur", None, variant))
        elif p.returncode:
            broken.append((p.returncode, open(d + "/err", errors="replace").read()[-800:]))
    search_s = time.time() - t1
    # 3. confirm every candidate in a fresh process, minimise, confirm the minimised plan twice
    unconfirmed = []
    seen = set()
    for kind, f, s, variant in candidates:
        if (kind, variant) in seen:
            continue
        exe = EXE[variant]
        k = replay_kind(exe, f)
        if not k or (k[0] != kind):
            unconfirmed.append((kind, s)); continue
        if any(kd == kind and msg in k[1] for kd, msg in known):
            continue
        seen.add((kind, variant))
        dst = os.path.join(rdir, "%s-%s-%s.%s.case" % (pid, re.sub(r"\W+", "-", kind), s if s is not None else "crash", variant))
        shutil.copy(f, dst)
        small = dst + ".min"
        rc, _, _ = run([exe, "minimise", f, kind, small, "25"], 200)
        msg = k[1]
        if rc == 0 and os.path.exists(small):
            a, b = replay_kind(exe, small), replay_kind(exe, small)
            if a and a == b and a[0] == kind:
                os.replace(small, dst); msg = a[1]
        if os.path.exists(small):
            os.unlink(small)
        found.append((kind, msg, dst))
        if len(found) >= 3:
            break
    # 4. evidence
    tot = {"cases": 0, "runs": 0, "sim_seconds": 0.0, "ops": 0, "solves": 0, "iterations": 0, "switches": 0}
    maps = {"faults": {}, "status": {}, "events": {}}
    cov, ilv, nseeds, edges, edges_total, per = set(), set(), 0, 0, 0, {}
    for variant, s in stats:
        nseeds += s["seeds"]; st = s["stats"]
        q = per.setdefault(variant, {"cases": 0, "simulated_runs": 0}); q["cases"] += st["cases"]; q["simulated_runs"] += st["runs"]
        for k in tot: tot[k] += st[k]
        for k in maps:
            for a, b in st[k].items(): maps[k][a] = maps[k].get(a, 0) + b
        cov |= {(variant, c) for c in st["cov"]}; ilv |= {(variant, c) for c in st["ilv"]}
        if variant == variants[0][0]:
            edges = max(edges, st["edges_seen"]); edges_total = st["edges_total"]
    samples = []
    for i in range(2):
        rc, o, _ = run([EXE[variants[0][0]], "show", pid, str(base + i)], 60)
        if rc == 0: samples.append(o[:3000])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot["cases"], "distinct_nontrivial": len(cov),
            "rule": "A case is one seed expanded to an explicit plan (operations of every simulated thread, thread switches, faults) and judged by " + spec["judge"]
                    + ". Runs are distinct when the signature of their code coverage (set of edges of the library with logarithmic hit counts) differs; a run that never gets a solver past setup is trivial by the same measure (few signatures).",
            "samples": samples,
            "seeds": nseeds, "first_seed": base, "simulated_runs": tot["runs"], "regression_plans": len(plans),
            "runs_per_hour": round(tot["runs"] / max(search_s, 1e-3) * 3600), "seeds_per_hour": round(nseeds / max(search_s, 1e-3) * 3600),
            "simulated_seconds": round(tot["sim_seconds"], 3), "api_calls": tot["ops"], "solves": tot["solves"], "iterations": tot["iterations"],
            "faults_injected": maps["faults"], "final_statuses": maps["status"], "events": maps["events"],
            "thread_switches": tot["switches"], "distinct_interleavings": len(ilv), "distinct_coverage_signatures": len(cov),
            "library_edges_reached_by_one_worker": edges, "library_edges": edges_total,
            "backends": per, "real_code": sum((props.REAL[v] for v, _ in variants), []), "stubs": sorted(set(sum((props.STUBS[v] for v, _ in variants), []))),
            "unconfirmed_candidates": len(unconfirmed), "nondeterministic_candidates": len(notes),
            "search_wall_s": round(search_s, 1), "build_wall_s": round(build_s, 1),
        },
        "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(found),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kind, msg, f in found:
        print("violation (%s): %s" % (kind, msg))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    if found:
        return 1
    if broken:
        print("ERROR: a worker failed: rc %d %s" % broken[0]); return 2
    if not tot["cases"] or not per.get(variants[0][0], {}).get("cases"):
        print("ERROR: nothing was explored"); return 2
    print("%s held on %d cases, %d simulated runs, %d distinct coverage signatures, %.0f s" % (pid, tot["cases"], tot["runs"], len(cov), time.time() - t0))
    if unconfirmed: print("note: %d candidates did not reproduce in a fresh process" % len(unconfirmed))
    return 0


if __name__ == "__main__":
    sys.exit(main())
