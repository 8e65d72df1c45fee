"""Concrete replay on the unmodified code: real numpy / scipy / astropy / colossus, no shims except the values of the random draws."""
import sys, os, json, traceback, warnings, contextlib, io, random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def run_case(h, case, tier):
    from symx import loader
    from symx.ctx import ConcCtx, Skip
    if h.fresh:
        loader.fresh()
    ctx = ConcCtx(case.get("inputs", {}), case.get("choices", {}), case.get("tables", {}), tier)
    if case.get("random") is not None:
        rnd = random.Random(case["random"])
        orig_real, orig_choice, orig_int = ctx.real, ctx.choice, ctx.integer
        import math

        def real(name, lo=None, hi=None, **k):
            if name not in ctx.inputs:
                l = -2.0 if lo is None else float(lo)
                u = (l + 4.0 if lo is None else l + 10.0) if hi is None else float(hi)
                ctx.inputs[name] = math.exp(rnd.uniform(math.log(l), math.log(u))) if l > 0 and u / l > 100 else rnd.uniform(l, u)
            return orig_real(name, lo, hi, **k)

        def choice(name, options):
            if name not in ctx.choices:
                ctx.choices[name] = rnd.randrange(len(options))
            return orig_choice(name, options)

        def integer(name, lo, hi):
            if name not in ctx.inputs:
                ctx.inputs[name] = rnd.randint(lo, hi)
            return orig_int(name, lo, hi)
        ctx.real, ctx.choice, ctx.integer = real, choice, integer
    r = {"failures": [], "exc": None, "skip": False}
    ctx.enter()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h.fn(ctx)
    except Skip:
        r["skip"] = True
    except Exception as x:
        r["exc"] = "%s: %s" % (type(x).__name__, str(x)[:300])
        r["tb"] = ["%s:%d %s" % (f.filename.replace("/repo/", ""), f.lineno, f.name) for f in traceback.extract_tb(sys.exc_info()[2])[-6:]]
    finally:
        ctx.leave()
    r["failures"] = ctx.failures[:10]
    r["checks"] = ctx.checks
    r["observed"] = ctx.observed
    if case.get("random") is not None:
        r["case"] = {"inputs": ctx.inputs, "choices": ctx.choices, "tables": {}}
    return r


def main():
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    with open(sys.argv[1]) as f:
        job = json.load(f)
    from symx import loader
    loader.install(False)
    import importlib
    mod = importlib.import_module("harness." + job["mod"])
    h = {x.name: x for x in mod.HARNESSES}[job["harness"]]
    out = []
    cases = list(job["cases"])
    for k in range(job.get("extra", 0)):
        cases.append({"random": "%s/%d" % (job.get("seed", 1), k)})
    for c in cases:
        out.append(run_case(h, c, job["tier"]))
    print("\n" + json.dumps(out, default=str))


if __name__ == "__main__":
    main()
