#!/usr/bin/env python3
"""check.py PROP [--thorough] | check.py PROP --replay FILE

Deterministic-simulation check of one property against /repo's working tree.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 3: the check itself could not run (build failure, nothing reproducible).
"""
import collections, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import profiles as PR

KINDS = ["nlp_failure", "evaluation_error", "interrupt_signal", "clock_jump", "io_error", "alloc_failure"]
END = ("crash", "hang", "livelock")


def jrun(exe, args, timeout=None):
    r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError("bonsim %s: exit %d %s" % (args, r.returncode, r.stderr[-500:]))
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]


def judge(exe, spec):
    with tempfile.NamedTemporaryFile("w", suffix=".spec", delete=False) as f:
        f.write(spec)
    try:
        return jrun(exe, ["judge", f.name])[0]
    finally:
        os.unlink(f.name)


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) (\{.*\})\s*$", l)
        if m:
            d = json.loads(m.group(2)); d["property"] = m.group(1); out.append(d)
    return out


def relevant(prop, row):
    """violations of this row that are violations of `prop`"""
    cfg = PR.PROFILES[prop]
    out = []
    for (p, cls, msg) in row["viol"]:
        if cls in END:
            if cfg["ends"] and (not cfg["faulted_only"] or row["sub"] > 0 or row.get("single")):
                out.append((cls, msg))
        elif cfg["faulted_only"]:
            if (row["sub"] > 0 or row.get("single")) and (cfg["own"] is None or p in cfg["own"]):
                out.append((cls, msg))
        elif p in cfg["own"]:
            out.append((cls, msg))
    return out


def suppressed(known, msg):
    return any(k.get("match") and k["match"] in msg for k in known)


def classes(prop, known, row):
    return [(c, m) for c, m in relevant(prop, row) if not suppressed(known, m)]


class Search:
    def __init__(self, exe, prop, seed, ncase, k, wall):
        self.exe, self.prop, self.seed, self.n, self.k, self.wall = exe, prop, seed, ncase, k, wall
        self.rows = []; self.bad = []; self.stop = False; self.t0 = time.time(); self.done = 0
        self.lock = threading.Lock()

    def chunk(self, ab):
        if self.stop or time.time() - self.t0 > self.wall:
            return
        a, b = ab
        rows = jrun(self.exe, ["batch", self.prop, str(self.seed), str(a), str(b), str(self.k)])
        with self.lock:
            self.rows += rows; self.done += b - a
            for r in rows:
                v = classes(self.prop, self.known, r)
                if v:
                    self.bad.append((r, v))
            if len(self.bad) >= 4:
                self.stop = True

    def run(self, known, workers=8):
        self.known = known
        step = PR.PROFILES[self.prop].get("chunk", 8)
        parts = [(a, min(a + step, self.n)) for a in range(0, self.n, step)]
        with cf.ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(self.chunk, p) for p in parts]:
                f.result()


def minimise(exe, prop, known, spec, cls, budget):
    t0 = time.time()
    lines = spec.strip().split("\n")
    keep = ("opt bonmin.algorithm", "opt bonmin.variable_selection", "opt bonmin.num_retry_unsolved", "opt bonmin.nlp_failure", "opt bonmin.cutoff ", "opt bonmin.time_limit", "opt bonmin.node_limit", "opt bonmin.solution_limit")
    def bad(ls):
        try:
            r = judge(exe, "\n".join(ls) + "\n")
        except Exception:
            return False
        r["single"] = True
        return any(c == cls for c, m in classes(prop, known, r))
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        idx = [i for i, l in enumerate(lines) if l.split()[0] in ("opt", "fault", "extra") and not l.startswith(keep)]
        # try big cuts first, then single lines
        for n in (len(idx), len(idx) // 2, 1):
            if n < 1: continue
            i = 0
            while i < len(idx) and time.time() - t0 < budget:
                drop = set(idx[i:i + n])
                ls = [l for j, l in enumerate(lines) if j not in drop]
                if bad(ls):
                    lines = ls; changed = True
                    idx = [j for j, l in enumerate(lines) if l.split()[0] in ("opt", "fault", "extra") and not l.startswith(keep)]
                else:
                    i += n
            if changed: break
    return "\n".join(lines) + "\n"


def confirm(exe, prop, known, spec):
    a = judge(exe, spec); b = judge(exe, spec)
    a["single"] = b["single"] = True
    va, vb = classes(prop, known, a), classes(prop, known, b)
    if va and vb and va[0][0] == vb[0][0] and (a["hash"] == b["hash"]):
        return va, a
    return None, a


def replay(exe, prop, known, path):
    spec = open(path).read()
    v, row = confirm(exe, prop, known, spec)
    if v:
        for c, m in v: print("  %s: %s" % (c, m))
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    print("replay does not violate %s" % prop); return 0


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = B.build()
    tb = time.time() - t0
    known = load_known()
    if "--replay" in sys.argv:
        sys.exit(replay(exe, prop, known, sys.argv[sys.argv.index("--replay") + 1]))
    cfg = PR.PROFILES[prop]
    # known findings: replay each listed input
    kf = []
    for k in known:
        if k["property"] != prop: continue
        r = judge(exe, open(os.path.join(VERIF, k["spec"])).read())
        r["single"] = True
        if any(c == k["class"] for c, m in relevant(prop, r)):
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], k["spec"])); kf.append(k["spec"])
    n, K = cfg[tier]
    if os.environ.get("VERIF_CASES"): n = int(os.environ["VERIF_CASES"])
    wall = cfg.get("wall", 450) if tier == "quick" else cfg.get("wall_thorough", 3000)
    s = Search(exe, prop, seed, n, K, wall)
    s.run(known)
    status, viol, replayfile = 0, [], None
    inconclusive = 0
    if s.bad:
        # smallest first; gate on two fresh-process replays with identical history hash
        s.bad.sort(key=lambda rv: (rv[1][0][0] in ("hang",), rv[0]["spec"].count("\n"), rv[0]["case"], rv[0]["sub"]))
        for r, v in s.bad[:6]:
            spec = r["spec"]
            c, row = confirm(exe, prop, known, spec)
            if not c:
                inconclusive += 1
                print("not reproducible: case %d sub %d %s" % (r["case"], r["sub"], v), file=sys.stderr); continue
            small = minimise(exe, prop, known, spec, c[0][0], 60 if tier == "quick" else 240)
            c2, row2 = confirm(exe, prop, known, small)
            if not c2: small, c2, row2 = spec, c, row
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            replayfile = os.path.join(d, "%s-%s.spec" % (prop, hashlib.sha1(small.encode()).hexdigest()[:10]))
            with open(replayfile, "w") as f:
                f.write("# found with VERIF_SEED=%d, case %d, schedule %d; history hash %s\n" % (seed, r["case"], r["sub"], row2["hash"]))
                for cc, mm in c2: f.write("# %s: %s\n" % (cc, mm))
                f.write(small)
            viol = c2
            break
        if not replayfile: status = 3
        else: status = 1
    # determinism sample: re-run some cases in another worker layout
    det = {"runs": 0, "mismatches": 0}
    if status == 0 and s.done:
        byk = {(r["case"], r["sub"]): r["hash"] for r in s.rows}
        cases = sorted({c for c, _ in byk})
        pick = cases[:: max(1, len(cases) // (40 if tier == "quick" else 400))]
        def again(c):
            return jrun(exe, ["batch", prop, str(seed), str(c), str(c + 1), str(K)])
        with cf.ThreadPoolExecutor(5) as ex:
            for rows in ex.map(again, pick):
                for r in rows:
                    det["runs"] += 1
                    if byk.get((r["case"], r["sub"])) != r["hash"]:
                        det["mismatches"] += 1
                        print("determinism: case %d sub %d differs" % (r["case"], r["sub"]), file=sys.stderr)
    write_evidence(prop, cfg, tier, seed, s, kf, det, viol, status, time.time() - t0, tb, inconclusive)
    tot = len(s.rows)
    print("%s %s: %d executions of %d cases, seed %d, %.0f s; faults fired: %s" % (
        prop, tier, tot, s.done, seed, time.time() - t0,
        ", ".join("%s %d" % (KINDS[i], sum(r["fired"][i] for r in s.rows)) for i in range(6) if any(r["fired"][i] for r in s.rows)) or "none (fault-free profile)"))
    if status == 1:
        for c, m in viol: print("  %s: %s" % (c, m))
        print("VIOLATION property=%s replay=%s" % (prop, replayfile))
    sys.exit(status)


def write_evidence(prop, cfg, tier, seed, s, kf, det, viol, status, wall, tb, inconclusive):
    rows = s.rows
    execs = sum(r["execs"] for r in rows)
    fired = {KINDS[i]: sum(r["fired"][i] for r in rows) for i in range(6)}
    nontriv = {r["hash"] for r in rows if (r["sub"] > 0 and sum(r["fired"]) > 0) or r["nodes"] > 0 or r["nlps"] > 1}
    alg = collections.Counter(r["alg"] for r in rows)
    outc = collections.Counter(re.sub(r"\d\|", "|", r["st"]) if len(r["st"]) > 24 else r["st"] for r in rows)
    samp = []
    for r in rows[:: max(1, len(rows) // 5)][:5]:
        samp.append({k: r[k] for k in ("case", "sub", "alg", "st", "steps", "evals", "nlps", "nodes", "vt", "fired", "hash")})
    simwall = max(1e-6, time.time() - s.t0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": execs, "distinct_nontrivial": len(nontriv), "rule": cfg["rule"], "samples": samp,
            "cases": s.done, "judged_runs": len(rows), "judged_runs_with_a_fired_fault": sum(1 for r in rows if sum(r["fired"])),
            "runs_per_hour": round(execs / simwall * 3600), "seeds_per_hour": round(s.done / simwall * 3600),
            "simulated_seconds": round(sum(r["vt"] for r in rows), 3), "simulated_steps": sum(r["steps"] for r in rows),
            "model_callbacks": sum(r["evals"] for r in rows), "nlp_solves": sum(r["nlps"] for r in rows), "tree_nodes": int(sum(r["nodes"] for r in rows)),
            "faults_injected": fired, "distinct_histories": len({r["hash"] for r in rows}),
            "distinct_histories_measure": "64-bit hash over every seam event (callback kind, NLP call and status, iteration, signal, clock jump), the incumbents and the reported outcome",
            "outcomes": dict(outc.most_common(20)), "algorithms": dict(alg),
            "determinism_rechecks": det, "not_reproducible": inconclusive,
            "real_components": ["all of Bonmin (src/Interfaces, Interfaces/Ipopt, Algorithms, CbcBonmin)", "Cbc", "Cgl", "Clp/OsiClp", "CoinUtils", "Ipopt", "MUMPS", "BLAS/LAPACK"],
            "stubbed_components": ["clocks (virtual)", "signal arrival time", "NLP solver return status when a failure is injected", "user model (generated, with an independent reference solution)"] + cfg.get("stubs", []),
            "known_findings_seen": kf,
        },
        "assumptions": ["problems are small convex MINLPs whose reference optimum is found by enumeration and an independent barrier method", "tolerances: 5e-5 relative on values, 1e-5 on constraints",
                        "the search is a seeded sample, not an enumeration"] + cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "build_s": round(tb, 2), "violations": 1 if status == 1 else 0,
    }
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
