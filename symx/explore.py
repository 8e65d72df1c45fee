"""Runs one harness symbolically, then replays candidates and path witnesses on the unmodified code."""
import sys, os, json, time, random, subprocess, traceback, tempfile, hashlib, importlib
from fractions import Fraction
from . import terms as T, engine as E, shim, loader
from .terms import Sym, SymBool, EngineGap, Prune, S
from .symctx import SymCtx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sink(object):
    """collects verdicts of all paths of one harness"""

    def __init__(self, engine, seed):
        self.e = engine
        self.fns = set()
        self.labels = {}          # label -> dict(proved, refuted, unknown)
        self.cands = []           # candidate violations
        self.gaps = []
        self.unknown = []
        self.cache = {}
        self.rnd = random.Random(seed)
        self.ncand = {}
        self.limit = 4

    def check(self, ctx, sb, label, margins):
        st = self.labels.setdefault(label, {"proved": 0, "refuted": 0, "unknown": 0})
        key = None
        if sb.op == "const" and sb.a:
            self.e.stats.trivial += 1
            st["proved"] += 1
            return
        if self.ncand.get(label, 0) >= self.limit:
            st["refuted"] += 1
            return
        r, m, enc = self.e.prove(sb)
        if r == "refuted" and sb.op in ("and", "or", "not", ">", ">="):
            # boundaries shifted by the rounding of numerical constants do not count
            r2, m2, enc2 = self.e.prove(T.relax(sb))
            if r2 == "proved":
                r = r2
        if r == "proved":
            st["proved"] += 1
            return
        st["refuted" if r == "refuted" else "unknown"] += 1
        self.ncand[label] = self.ncand.get(label, 0) + 1
        cases = []
        neg = ~sb
        for f in [neg & g if neg.op != "const" else neg for g in list(margins)[:2]] + [neg]:
            cases += self.models(ctx, f, 3 if f is neg else 1)
        self.cands.append({"label": label, "verdict": r, "cases": cases, "formula": repr(neg)[:600]})

    # ---- concrete cases from the path condition ----------------------------------------------------------------
    def case(self, ctx, model, enc, inputs=None, tables=True):
        inp = self.e.model_inputs(model, enc) if inputs is None else inputs
        tab = {}
        if tables and model is not None:
            for i in enc.exps:
                a = S.atoms[i]
                if a.kind == "fn" and a.data[0] in self.fns:
                    try:
                        v = E.mval(model, enc.need_base(i))
                        args = [float(E.mval(model, enc.poly_safe(x))) for x in a.data[1]]
                        tab.setdefault(a.data[0], []).append([args, float(v)])
                    except Exception:
                        pass
        return {"inputs": by_input(ctx, inp), "choices": dict(ctx.choices), "tables": tab}

    def interior(self, forms):
        out = []
        for f in forms:
            if f.op in (">", ">="):
                s = T.static_sign(f.a)
                out.append(T.cmp_(f.a, Sym.const(Fraction(1, 1000)), ">"))
            else:
                out.append(f)
        return out

    def models(self, ctx, extra, n, full=True):
        e = self.e
        forms = list(e.pc) + ([extra] if extra is not None and extra.op != "const" else [])
        if extra is not None and extra.op == "const" and not extra.a:
            return []
        cases = []
        variants = [("conc", forms), ("plain", forms), ("interior", self.interior(forms))]
        for kind, fs in variants:
            if kind == "conc":
                c = self.numeric(ctx, forms)
                if c is not None:
                    cases.append(c)
                    if n <= 1:
                        return cases
                continue
            cuts = {}
            r = m = enc = None
            for it in range(5):
                try:
                    r, m, enc = e.solve(fs, 2, 3000, cuts)
                except (EngineGap, Exception):
                    r = "unknown"
                if r != "sat" or not e.add_cuts(cuts, m, enc):
                    break
            if r == "sat":
                cases.append(self.case(ctx, m, enc))
            if len(cases) >= n:
                break
        return cases

    def numeric(self, ctx, forms, tries=60):
        """model with every environment function at its own concrete definition: start at the solver's model, repair by
        perturbation; evaluates the formulas with the true functions"""
        e = self.e
        ids = set()
        for f in forms:
            E.atoms_of(f, ids)
        ids = [i for i in ids if S.atoms[i].kind == "var"]
        start = None
        try:
            cuts = {}
            for it in range(3):
                r, m, enc = e.solve(forms, 2, 2000, cuts)
                if r != "sat" or not e.add_cuts(cuts, m, enc):
                    break
            if r == "sat":
                start = e.model_inputs(m, enc)
        except Exception:
            start = None
        base = {a.name: float(e.default_value(a)) for a in S.atoms if a.kind == "var"}
        if start:
            base.update(start)
        for k in range(tries):
            env = dict(base)
            if k:
                for i in ids:
                    a = S.atoms[i]
                    if self.rnd.random() < (0.6 if k < tries // 2 else 1.0):
                        env[a.name] = self.perturb(a, base.get(a.name, 0.0), wild=k >= tries // 3)
            try:
                memo = {}
                if all(E.neval_bool(f, env, e.fn_conc, memo) for f in forms):
                    return {"inputs": by_input(ctx, env), "choices": dict(ctx.choices), "tables": {}, "exact": True}
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
        return None

    def perturb(self, a, v, wild):
        lo = float(a.lo[0]) if a.lo else v - 2 - abs(v)
        hi = float(a.hi[0]) if a.hi else v + 2 + abs(v)
        if a.integer:
            return float(self.rnd.randint(int(lo), int(hi)))
        if not wild:
            v = v * (1 + self.rnd.gauss(0, 0.05)) + self.rnd.gauss(0, 1e-3) * (hi - lo)
            return min(max(v, lo), hi)
        import math
        if lo > 0 and hi / lo > 100:
            return math.exp(self.rnd.uniform(math.log(lo), math.log(hi)))
        return self.rnd.uniform(lo, hi)


STANDINS = ("harness", "symx", "lenstronomy", "matplotlib")


def interface_gone(x):
    """a name the harness itself looks up does not exist (any more): nothing to decide, not a violation"""
    if not isinstance(x, (AttributeError, ImportError)):
        return False
    o = getattr(x, "obj", None)
    own = getattr(o, "__module__", None) or getattr(type(o), "__module__", "") or ""
    if type(o).__module__.split(".")[0] in STANDINS or str(own).split(".")[0] in STANDINS:
        return True
    if isinstance(x, ImportError) and str(x.name or "").split(".")[0] in ("lenstronomy", "matplotlib", "h5py", "pandas"):
        return True
    if o is not None and type(o).__name__ == "module" and o.__name__.split(".")[0] in STANDINS:
        return True
    f = traceback.extract_tb(x.__traceback__)[-1].filename
    return "/harness/" in f or f.endswith("symx/ctx.py") or f.endswith("symx/loader.py") or f.endswith("symx/symctx.py") or "importlib" in f


def plain(name):
    return name.split("{")[0]


def by_input(ctx, env):
    """values of the atoms under the names the harness uses on this path"""
    out = {plain(n): v for n, v in env.items() if not n.startswith("t$") and n not in ctx.vars.values()}
    out.update({n: env[a] for n, a in ctx.vars.items() if a in env})
    return out


FUNCS = set()


def start_coverage():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    root = loader.REPO + "/pyHalo/"

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(root) and code.co_qualname != "<module>":
            FUNCS.add(f[len(loader.REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def run_harness(modname, hname, tier, seed, budget):
    """executed in its own process; returns a result dict"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    loader.install(True)
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    start_coverage()
    mod = importlib.import_module("harness." + modname)
    h = {x.name: x for x in mod.HARNESSES}[hname]
    T.reset_session()
    eng = E.Engine(seed=seed, budget_s=budget, max_paths=h.max_paths * (4 if tier == "thorough" else 1), feas_ms=h.feas_ms, prove_ms=h.prove_ms)
    sink = Sink(eng, seed)
    sink.limit = h.cands
    res = {"harness": hname, "bounds": h.bounds, "timeout": None}
    ends, errs, wit = 0, [], []
    cur = []

    def one(e):
        shim.RNG[0] = None
        shim.ARANGE[0] = 0
        shim.EXACT[0] = False
        if h.fresh:
            loader.fresh()
        ctx = SymCtx(e, tier, sink)
        shim.RNG[0] = ctx.rng
        cur[:] = [ctx]
        try:
            h.fn(ctx)
            return "end", ctx
        except Prune:
            return "prune", ctx
        except EngineGap as x:
            return "gap", (ctx, x, tb())
        except TimeoutError:
            raise
        except Exception as x:
            if interface_gone(x):
                return "gap", (ctx, EngineGap("interface used by the harness not found: %s" % x), tb())
            return "exc", (ctx, x, tb())
        finally:
            ctx.leave()
            eng.bound_scopes[:] = []
            shim.QUAD_DEPTH[0] = 0

    reached = 0
    pick = random.Random(seed)
    budget_witness = h.witnesses * (3 if tier == "thorough" else 1)
    npath = 0
    try:
        for kind, val in eng.explore(one):
            npath += 1
            if kind == "end":
                ends += 1
                ctx = val
                if ctx.path_checks:
                    reached += 1
                if len(wit) < budget_witness and (npath <= 2 or pick.random() < 0.25):
                    c = sink.numeric(ctx, list(eng.pc), 40)
                    if c is None:
                        cs = sink.models(ctx, None, 1)
                        c = cs[0] if cs else None
                    if c is not None:
                        exp = []
                        for n, v in ctx.observed:
                            try:
                                if isinstance(v, SymBool):
                                    exp.append([n, float(E.neval_bool(v, full_env(eng, c), eng.fn_conc))])
                                elif isinstance(v, Sym):
                                    exp.append([n, E.neval(v, full_env(eng, c), eng.fn_conc)] if c.get("exact") else [n, None])
                                elif isinstance(v, (int, float)) or hasattr(v, "dtype"):
                                    exp.append([n, float(v)])
                                else:
                                    exp.append([n, str(v)])
                            except Exception:
                                exp.append([n, None])
                        c["expect"] = exp
                        wit.append(c)
            elif kind == "gap":
                ctx, x, t = val
                g = {"what": str(x)[:300], "tb": t, "cases": []}
                if len(sink.gaps) < 6:
                    g["cases"] = sink.models(ctx, None, 3)
                sink.gaps.append(g)
                if len(sink.gaps) > 40:
                    res["timeout"] = "too many paths outside the engine"
                    break
            elif kind == "exc":
                ctx, x, t = val
                label = "exception %s: %s" % (type(x).__name__, str(x)[:160])
                k = type(x).__name__ + t[-1] if t else ""
                sink.ncand[k] = sink.ncand.get(k, 0) + 1
                if sink.ncand[k] <= 3:
                    sink.cands.append({"label": label, "verdict": "exception", "cases": sink.models(ctx, None, 3), "formula": "", "tb": t})
    except TimeoutError as x:
        res["timeout"] = str(x)
    res.update(paths=npath, completed=ends, reached=reached, stats=eng.stats.as_dict(), labels=sink.labels, gaps=sink.gaps, cands=sink.cands,
               functions=sorted(FUNCS), sym_s=time.time() - t0)
    # gap / timeout: fall back to concretisation (values chosen by the solver inside the stated bounds)
    conc = []
    if res["timeout"] or sink.gaps:
        for g in sink.gaps:
            conc += g["cases"]
    res["replay"] = replay(modname, hname, tier, sink.cands, wit, conc, seed, extra=(12 if (res["timeout"] or sink.gaps) else 0))
    res["wall_s"] = time.time() - t0
    return res


def full_env(eng, c):
    env = {a.name: float(eng.default_value(a)) for a in S.atoms if a.kind == "var"}
    for a in S.atoms:
        if a.kind == "var" and plain(a.name) in c["inputs"]:
            env[a.name] = c["inputs"][plain(a.name)]
    return env


def tb():
    out = []
    for fr in traceback.extract_tb(sys.exc_info()[2])[-6:]:
        out.append("%s:%d %s" % (fr.filename.replace("/repo/", ""), fr.lineno, fr.name))
    return out


def replay(modname, hname, tier, cands, wit, conc, seed, extra=0):
    cases = []
    for i, c in enumerate(cands):
        for k in c["cases"]:
            cases.append(dict(k, role="cand", idx=i))
    for w in wit:
        cases.append(dict(w, role="witness"))
    for k in conc:
        cases.append(dict(k, role="conc"))
    if not cases and not extra:
        return {"results": [], "error": None}
    job = {"mod": modname, "harness": hname, "tier": tier, "cases": cases, "extra": extra, "seed": seed}
    fd, path = tempfile.mkstemp(prefix="symx", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(job, f)
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "symx", "replay.py"), path], capture_output=True, text=True, timeout=300, env=env, cwd="/")
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return {"results": [], "error": (p.stderr or p.stdout)[-800:]}
        for c, o in zip(cases, r):
            o["role"], o["idx"] = c["role"], c.get("idx")
            o["case"] = {k: c[k] for k in ("inputs", "choices", "tables") if k in c}
            o["expect"] = c.get("expect")
        for o in r[len(cases):]:
            o["role"] = "conc"
        return {"results": r, "error": None}
    except subprocess.TimeoutExpired:
        return {"results": [], "error": "replay timed out"}
    finally:
        os.unlink(path)
