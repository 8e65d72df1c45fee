#!/opt/veriftools/pyvenv/bin/python
"""check.py P07 [--tier quick|thorough] [--strict] [--only harness]   decide one property
   check.py --replay FILE                                           replay one reported violation on the real code"""
import sys, os, json, time, hashlib, importlib, argparse, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def worker(a):
    from symx import explore
    try:
        return explore.run_harness(*a)
    except BaseException as x:
        return {"harness": a[1], "error": "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:])}


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == pid:
                    out.append(d)
    return out


def match(kf, harness, labels, choices):
    """the listed finding covers this failure: same harness, every failing label listed, listed choices equal"""
    for k in kf:
        if k["harness"] != harness:
            continue
        if not all(any(l.startswith(x) for x in k["labels"]) for l in labels):
            continue
        if all(choices.get(c) in (v if isinstance(v, list) else [v]) for c, v in k.get("choices", {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.pid
    modname = pid.lower()
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    mod = importlib.import_module("harness." + modname)
    hs = [h for h in mod.HARNESSES if a.tier in h.tiers and (not a.only or h.name == a.only)]
    mult = 6 if a.tier == "thorough" else 1
    jobs = [(modname, h.name, a.tier, seed, h.budget * mult) for h in hs]
    ctx = multiprocessing.get_context("spawn")
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        results = list(pool.imap_unordered(worker, jobs))
    order = {h.name: i for i, h in enumerate(hs)}
    results.sort(key=lambda r: order[r["harness"]])
    kf = known(pid)
    viol, inconc, knownhits = [], [], {}
    tot = {}
    funcs = set()
    samples = []
    validated = mism = conc_runs = 0
    hard = False
    per = []
    for r in results:
        h = hs[order[r["harness"]]]
        if "error" in r:
            inconc.append((h.name, "engine error: " + r["error"]))
            hard = True
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r["functions"])
        rep = r["replay"]
        if rep["error"]:
            inconc.append((h.name, "replay: " + rep["error"]))
            hard = True
        reproduced = set()
        nconc = 0
        for o in rep["results"]:
            if o["skip"]:
                continue
            bad = list(o["failures"])
            if o["exc"]:
                bad.append("exception " + o["exc"])
            if o["role"] == "conc" and o["checks"]:
                nconc += 1
            if bad:
                if o["role"] == "cand":
                    reproduced.add(o["idx"])
                k = match(kf, h.name, bad, o["case"]["choices"])
                if k:
                    knownhits.setdefault(k["id"], (k, bad))
                else:
                    viol.append((h, bad, o))
            if o["role"] == "witness" and not bad:
                ok = compare(o)
                if ok is True:
                    validated += 1
                else:
                    mism += 1
                    inconc.append((h.name, "encoding differs from the real run: %s at %s" % (ok, json.dumps(o["case"], default=str)[:400])))
        conc_runs += nconc
        for i, c in enumerate(r["cands"]):
            if i not in reproduced:
                inconc.append((h.name, "%s not decided (%s): %s" % (c["label"], c["verdict"], c.get("tb", "") or c["formula"][:300])))
        if r["gaps"]:
            g = r["gaps"][0]
            inconc.append((h.name, "%d path(s) outside the engine: %s at %s" % (len(r["gaps"]), g["what"], g["tb"][-3:])))
        if r["timeout"]:
            inconc.append((h.name, r["timeout"]))
        if not r["reached"] and not r["cands"]:
            inconc.append((h.name, "vacuous: no path reached a check"))
        if (r["gaps"] or r["timeout"] or not r["reached"]) and not nconc and not viol:
            hard = True
        per.append({"harness": h.name, "bounds": h.bounds, "paths": r["paths"], "paths_reaching_checks": r["reached"], "assertions": {k: v for k, v in sorted(r["labels"].items())},
                    "queries": r["stats"]["queries"], "solver_s": round(r["stats"]["solver_s"], 2), "wall_s": round(r["wall_s"], 2)})
        for o in rep["results"]:
            if o["role"] == "witness" and len(samples) < 6 and sum(s["harness"] == h.name for s in samples) < 1:
                samples.append({"harness": h.name, "case": o["case"], "observed": o["observed"][:6]})
        if a.v:
            print("%-34s paths %d (%d end, %d reach) queries %d solver %.1fs sym %.1fs wall %.1fs" % (h.name, r["paths"], r["completed"], r["reached"], r["stats"]["queries"], r["stats"]["solver_s"], r["sym_s"], r["wall_s"]))
            for l, s in r["labels"].items():
                if a.v and (s["refuted"] or s["unknown"]):
                    print("     ", l, s)
    rc = 0
    lines = []
    for k, (d, bad) in sorted(knownhits.items()):
        lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, d["what"], bad[0][:160]))
    seen = set()
    nv = 0
    for h, bad, o in viol:
        nv += 1
        key = (h.name, bad[0].split(" ")[0:4].__str__())
        if key in seen:
            continue
        seen.add(key)
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": pid, "mod": modname, "harness": h.name, "tier": a.tier, "case": o["case"], "failures": bad}
        f = os.path.join(d, "%s-%s-%s.json" % (pid, h.name, hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]))
        with open(f, "w") as fh:
            json.dump(body, fh, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, HERE)))
        lines.append("    %s: %s" % (h.name, "; ".join(bad)[:400]))
        rc = 1
    if not rc:
        seen = set()
        for n, w in inconc:
            if (n, w[:60]) in seen:
                continue
            seen.add((n, w[:60]))
            lines.append("INCONCLUSIVE %s: %s" % (n, w[:700]))
        if inconc and (hard or a.strict):
            rc = 2
    wall = time.time() - t0
    lab = [s for p in per for s in p["assertions"].values()]
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking", "coverage": {
        "states": tot.get("paths", 0), "transitions": tot.get("decisions", 0), "traces_validated_against_impl": validated, "samples": samples or ["none"],
        "meaning": "states: program paths of the real code executed symbolically; transitions: solver-decided branches; traces: path witnesses run on the unmodified code whose observed values equal the symbolic ones",
        "functions_encoded": sorted(funcs), "harnesses": per, "queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0), "unknown": tot.get("unknown", 0),
        "discharged_by_normal_form": tot.get("trivial", 0), "assertions_proved": sum(s["proved"] for s in lab), "assertions_refuted": sum(s["refuted"] for s in lab),
        "solver_s": round(tot.get("solver_s", 0), 2), "encoding_mismatches": mism, "concretised_runs": conc_runs,
        "inconclusive": ["%s: %s" % (n, w[:300]) for n, w in inconc][:20], "known_findings_seen": sorted(knownhits)},
        "assumptions": ["floating point is modelled as exact real arithmetic with 1e-9 tolerance on constants; rounding is covered only by the concrete replays",
                        "random draws are arbitrary values of their range; environment functions named in the harness bounds are arbitrary functions with the stated bounds and monotonicity"] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": nv}
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print("%s %s: %d harnesses, %d paths, %d assertions proved, %d queries (%.1f s solver), %d traces validated, %.1f s" % (
        pid, {0: "held", 1: "VIOLATED", 2: "INCONCLUSIVE"}[rc], len(hs), tot.get("paths", 0), sum(s["proved"] for s in lab), tot.get("queries", 0), tot.get("solver_s", 0), validated, wall))
    return rc


def compare(o):
    obs = {}
    for n, v in o["observed"]:
        obs.setdefault(n, []).append(v)
    exp = {}
    for n, v in o["expect"]:
        exp.setdefault(n, []).append(v)
    for n, vs in exp.items():
        ws = obs.get(n)
        if ws is None or len(ws) != len(vs):
            return "%s missing" % n
        for v, w in zip(vs, ws):
            if v is None:
                continue
            if isinstance(v, str) or isinstance(w, str):
                if str(v) != str(w):
                    return "%s: %s vs real %s" % (n, v, w)
            elif abs(v - w) > 1e-5 * max(abs(v), abs(w)) + 1e-9:
                return "%s: %.12g vs real %.12g" % (n, v, w)
    return True


def replay_file(f):
    import subprocess, tempfile
    d = json.load(open(f))
    job = {"mod": d["mod"], "harness": d["harness"], "tier": d["tier"], "cases": [d["case"]]}
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as t:
        json.dump(job, t)
    p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "symx", "replay.py"), t.name], capture_output=True, text=True)
    os.unlink(t.name)
    print(p.stdout.strip() or p.stderr)
    r = json.loads(p.stdout.strip().splitlines()[-1])[0]
    return 1 if (r["failures"] or r["exc"]) else 0


if __name__ == "__main__":
    sys.exit(main())
