#!/usr/bin/env python3
"""check.py ID [quick|thorough]     decide one property on /repo's current tree
check.py --replay FILE            run one recorded counterexample against the real code again

Symbolically executes the LLVM IR of the crates in /repo (built by build.py from the working tree) from the property's harness in
symex/props, with the input symbolic; the solver decides every branch. Every completed path's model is then run through the real
build and must produce the same observables; every violating path must reproduce there before it is reported."""
import collections, json, os, random, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from specs import SPECS

EV = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
THREADS = min(16, os.cpu_count() or 4)
CHILD_S = 30


def native(vnat, job, vals):
    """(outcome, input, detail) of one assignment against the real code, in a process of its own."""
    try:
        p = subprocess.run([vnat, "one", str(job), vals], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=CHILD_S,
                           text=True, errors="replace", cwd="/tmp")
    except subprocess.TimeoutExpired as e:
        return "hang", "", "does not return within %d s" % CHILD_S
    show = re.findall(r"^show: ((?:.|\n(?!note: |show: |outcome: |panic at ))*)", p.stdout, re.M)
    show = " ".join(s.rstrip("\n") for s in show)
    m = re.search(r"^outcome: (.*)$", p.stdout, re.M)
    if p.returncode < 0 or (m is None and p.returncode != 0):
        return "crash", show, "the process dies (status %d): %s" % (p.returncode, p.stdout[-300:])
    o = m.group(1)
    kind, _, detail = o.partition("\t")
    if kind == "panic":
        w = re.search(r"panic at ([^\n]*)", p.stdout)
        detail = "panic: " + (w.group(1) if w else detail)
    return kind, show, detail


def known_findings(pid):
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: "):
                k = json.loads(l[7:])
                if k["property"] == pid:
                    ks.append(k)
    return ks


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        _, v = build.build([r["variant"]])
        k, show, d = native(v[r["variant"]][1], r["job"], r["values"])
        print("input: %s\noutcome: %s %s" % (show, k, d))
        sys.exit(0 if k in ("ok", "infeasible") else 1)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[pid]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    eng, vs = build.build(spec["variants"])
    build_s = time.time() - t0
    tot = collections.Counter()
    inc = collections.Counter()
    fns, covers, z3v, bad, samples = set(), set(), "", [], []
    njobs = validated = 0
    problems = []
    limit = spec.get("deadline", {}).get(tier, 330 if tier == "quick" else 2400)
    for n, variant in enumerate(spec["variants"]):
        irf, vnat = vs[variant]
        jobs = []
        for j in spec["jobs"]:
            jobs += subprocess.check_output([vnat, "jobs", str(j), "0" if tier == "quick" else "1"], text=True).split()
        njobs += len(jobs)
        if not jobs:
            raise SystemExit("no jobs")
        out = os.path.join(build.OUT, "%s-%s-%s.jsonl" % (pid, tier, variant))
        env = dict(os.environ, SX_MAX_INSTRS=str(spec.get("max_instrs", 20_000_000)), SX_JOB_S=str(spec.get("job_s", 120 if tier == "quick" else 900)))
        share = limit / len(spec["variants"])
        try:
            p = subprocess.run([eng, irf, out, str(THREADS), str(share)] + jobs, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=share + 150)
        except subprocess.TimeoutExpired:
            problems.append("the engine did not stop at its deadline")
            continue
        if p.returncode != 0:
            problems.append("the engine failed (%d): %s" % (p.returncode, p.stdout[-1500:]))
            continue
        for l in open(out):
            d = json.loads(l)
            if d.get("meta"):
                fns |= set(d["functions"])
                z3v = d["z3"]
                continue
            for k in ("paths", "ok", "infeasible", "unfinished", "forks", "instrs", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s"):
                tot[k] += d[k]
            covers |= set(d["covers"])
            for k, v in d["incomplete"].items():
                inc[k] += v
        oks = 0
        for l in open(out + ".traces", errors="replace"):
            f = l.rstrip("\n").split("\t")
            if f[1] == "ok":
                oks += 1
                if len(samples) < 400:
                    samples.append((variant, f[0], f[3]))
                elif random.Random(oks).random() < 400 / oks:
                    samples[oks % 400] = (variant, f[0], f[3])
            else:
                bad.append((variant, f[0], f[1], f[3], f[4] if len(f) > 4 else ""))
        # cross-validation of the encoding: the same assignments through the real build
        try:
            p = subprocess.run([vnat, "check", out + ".traces", str(THREADS)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               errors="replace", timeout=300, cwd="/tmp")
            txt, died = p.stdout, p.returncode != 0
        except subprocess.TimeoutExpired:
            txt, died = "", True
        m = re.search(r"^summary\t(\d+)\t(\d+)", txt, re.M)
        if m:
            validated += int(m.group(1))
        for l in txt.splitlines():
            f = l.split("\t")
            if f[0] == "mismatch":
                bad.append((variant, f[1], "mismatch", f[2], f[3]))
        if died or not m:
            problems.append("the native validation of variant %s did not finish" % variant)
        os.remove(out + ".traces")
    # replay everything which is not a completed, satisfied path
    known = known_findings(pid)
    viol, hits, unrep = [], collections.OrderedDict(), []
    groups = collections.OrderedDict()
    for b in bad:
        groups.setdefault((b[0], b[2], b[4]), []).append(b)
    replays = 0
    tr = time.time()
    for (variant, kind, msg), bs in groups.items():
        cap = 40 if kind in ("fail", "panic", "ub", "mismatch") else 25
        for b in bs[:cap]:
            if time.time() - tr > 120 and (viol or kind in ("incomplete", "budget", "depth")):
                break
            k, show, d = native(vs[variant][1], b[1], b[3])
            replays += 1
            if k in ("fail", "panic", "hang", "crash"):
                what = d or msg
                kf = next((x for x in known if re.fullmatch(x["input"], show, re.S) and re.search(x["message"], what)), None)
                if kf:
                    hits[kf["what"]] = True
                    continue
                if len(viol) < 12:
                    viol.append(dict(property=pid, variant=variant, job=int(b[1]), values=b[3], kind=k, input=show, message=what,
                                     engine="%s %s" % (kind, msg)))
                if k == "hang":
                    break
            elif kind in ("fail", "panic", "ub", "mismatch"):
                unrep.append("%s in job %s [%s] does not reproduce: engine says %r, real code says %s %s" % (kind, b[1], b[3], msg, k, d))
    need = set(spec.get("covers", [1]))
    if tot["paths"] and not need <= covers and not inc and not viol:
        problems.append("vacuous: witnesses %s were never reached" % sorted(need - covers))
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    shown = []
    for variant, job, vals in samples[:8]:
        k, show, d = native(vs[variant][1], job, vals)
        shown.append({"job": int(job), "assignment": vals, "input": show, "outcome": k})
    crate = sorted(f for f in fns if re.search(r"\b(math_core|mathml_renderer|math_core_renderer_internal|vprops|vcli)", f))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": shown,
            "jobs": njobs, "paths_completed": tot["ok"], "paths_not_completed": {k: v for k, v in inc.items()}, "paths_left_at_deadline": tot["unfinished"],
            "ir_instructions_executed": tot["instrs"],
            "solver": {"name": z3v, "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
                       "answered_from_cache": tot["cache_hits"], "seconds": round(tot["solver_s"], 2)},
            "functions_encoded": len(fns), "functions_of_the_repository_encoded": crate[:400], "build_variants": spec["variants"], "build_s": round(build_s, 1),
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "outside": spec["outside"], "witnesses_reached": sorted(covers), "counterexamples_replayed": replays,
            "exhaustive": not inc and tot["unfinished"] == 0 and tot["unknown"] == 0,
            "known_findings": list(hits), "problems": problems + unrep[:10],
        },
        "assumptions": spec["assumptions"],
    }
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d jobs, %d paths (%d completed, %d not, %d left), %d queries, %.1f s in the solver, %d paths validated natively, %.1f s" % (
        pid, tier, njobs, tot["paths"], tot["ok"], sum(inc.values()), tot["unfinished"], tot["queries"], tot["solver_s"], validated, time.time() - t0))
    for k, v in inc.most_common(8):
        print("  not completed: %s (%d)" % (k, v))
    if viol:
        d = os.path.join(EV, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, v in enumerate(viol):
            f = os.path.join(d, "%s-%d.json" % (pid, i))
            json.dump(v, open(f, "w"), indent=1)
            if v["message"] in seen and i > 3:
                continue
            seen.add(v["message"])
            print("  input %r: %s" % (v["input"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1)
    if problems or unrep:
        for m in (problems + unrep)[:10]:
            print("ERROR: " + m)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except build.BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
