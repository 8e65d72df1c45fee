"""Harness interface.  The same harness code runs symbolically and, for replays, concretely on the unshimmed code."""
import math, sys, itertools
import numpy as np
from fractions import Fraction


class Skip(BaseException):
    """concrete replay: assumption violated by the model (the case does not count)"""


class CheckFailed(Exception):
    pass


class BaseCtx(object):
    def __deepcopy__(self, memo):
        return self

    symbolic = False
    pi = math.pi

    def __init__(self, tier="quick"):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.observed = []
        self.checks = 0

    def load(self, name):
        from . import loader
        return loader.load(name)

    def get(self, name, attr):
        return getattr(self.load(name), attr)

    def reals(self, prefix, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (prefix, i), lo, hi, **k) for i in range(n)]

    def raises(self, f, exc=Exception, label="refused"):
        """f must raise (an error, not return)"""
        try:
            r = f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def all_close(self, xs, ys, label, **k):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), label + " (length)")
        for i, (a, b) in enumerate(zip(xs, ys)):
            self.close(a, b, "%s[%d]" % (label, i), **k)


class ConcCtx(BaseCtx):
    """concrete replay"""

    def __init__(self, inputs, choices, tables=None, tier="quick"):
        BaseCtx.__init__(self, tier)
        self.inputs = inputs
        self.choices = choices
        self.tables = tables or {}
        self.failures = []
        self.restore = []
        from .rng import Rng
        self.rng = Rng(self)
        self.rng.max_size = 10 ** 6

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, integer=False):
        v = self.inputs.get(name)
        if v is None:
            l = 0.0 if lo is None else float(lo)
            h = l + 1.0 if hi is None else float(hi)
            v = l + 0.4371 * (h - l)
        v = float(v)
        if lo is not None:
            v = max(v, float(lo))
            if lo_strict and v <= float(lo):
                v = math.nextafter(float(lo), math.inf)
        if hi is not None:
            v = min(v, float(hi))
            if hi_strict and v >= float(hi):
                v = math.nextafter(float(hi), -math.inf)
        return v

    def integer(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = min(lo + 1, hi)
        return int(min(max(round(v), lo), hi))

    def choice(self, name, options):
        return options[min(self.choices.get(name, 0), len(options) - 1)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond, tol=1e-9):
        if not cond:
            raise Skip()

    def _rec(self, ok, label, detail=""):
        self.checks += 1
        if not ok:
            self.failures.append("%s %s" % (label, detail))

    def check(self, cond, label):
        self._rec(bool(cond), label)

    def le(self, a, b, label, tol=1e-9):
        a, b = float(a), float(b)
        ok = a <= b + tol * max(1e-300, abs(a), abs(b))
        self._rec(ok, label, "%.17g <= %.17g" % (a, b))

    def lt(self, a, b, label, tol=1e-9):
        a, b = float(a), float(b)
        ok = a < b + tol * max(abs(a), abs(b))
        self._rec(ok, label, "%.17g < %.17g" % (a, b))

    def close(self, a, b, label, rtol=1e-6, atol=0.0):
        a, b = float(a), float(b)
        ok = abs(a - b) <= rtol * max(abs(a), abs(b)) + atol or a == b
        self._rec(ok, label, "%.17g == %.17g" % (a, b))

    def eq_or(self, cond_pairs, label, rtol=1e-6):
        """one of the (a, b) pairs agrees"""
        ok = any(abs(float(a) - float(b)) <= rtol * max(abs(float(a)), abs(float(b))) for a, b in cond_pairs)
        self._rec(ok, label, str([(float(a), float(b)) for a, b in cond_pairs]))

    def observe(self, name, v):
        for i, x in enumerate(np.asarray(v, dtype=object).reshape(-1)):
            try:
                self.observed.append(("%s[%d]" % (name, i), float(x)))
            except (TypeError, ValueError):
                self.observed.append(("%s[%d]" % (name, i), str(x)))

    def fn(self, name, conc, **ax):
        tab = self.tables.get(name, [])

        def f(*xs):
            xs = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in xs]
            if any(isinstance(x, (np.ndarray, list)) for x in xs):
                return np.vectorize(f, otypes=[float])(*xs)
            for args, val in tab:
                if len(args) == len(xs) and all(abs(a - float(x)) <= 1e-7 * max(1e-12, abs(a), abs(float(x))) for a, x in zip(args, xs)):
                    return val
            return conc(*xs)
        return f

    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, None) if isinstance(obj, type) else getattr(obj, name)
        if old is None:
            old = getattr(obj, name)
        self.restore.append((obj, name, old))
        setattr(obj, name, value)

    def exact_tables(self):
        pass

    def gap(self, msg):
        pass

    def as_int(self, x):
        return int(x)

    def demote(self, a):
        if a.dtype == object and a.size:
            if all(isinstance(v, (int, np.integer)) for v in a.flat):
                return a.astype(int)
            try:
                return a.astype(float)
            except (TypeError, ValueError):
                return a
        return a.astype(float) if a.dtype == object else a

    exp = staticmethod(lambda x: math.exp(x))
    sinh = staticmethod(lambda x: math.sinh(x))
    tanh = staticmethod(lambda x: math.tanh(x))
    sqrt = staticmethod(lambda x: math.sqrt(x))
    log = staticmethod(lambda x: math.log(x))
    log10 = staticmethod(lambda x: math.log10(x))
    cos = staticmethod(lambda x: math.cos(x))
    sin = staticmethod(lambda x: math.sin(x))

    @staticmethod
    def abs(x):
        return abs(x)

    @staticmethod
    def min(a, b):
        return min(a, b)

    @staticmethod
    def max(a, b):
        return max(a, b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def quad(self, f, a, b):
        import scipy.integrate
        return scipy.integrate.quad(lambda t: float(f(t)), a, b, limit=400)[0]

    def is_true(self, c):
        return bool(c)

    def same(self, a, b, rtol=1e-9):
        a, b = float(a), float(b)
        return abs(a - b) <= rtol * max(abs(a), abs(b))

    def enter(self):
        from . import rng as R
        import scipy.stats
        for n in R.NAMES:
            if hasattr(np.random, n):
                self.patch(np.random, n, getattr(self.rng, n))
        for d, k in ((scipy.stats.truncnorm, "truncnorm"), (scipy.stats.johnsonsu, "johnsonsu")):
            def mk(d, k):
                orig = d.__class__.freeze
                rvs = getattr(self.rng, k + "_rvs")

                def freeze(self_, *a, **kw):
                    fr = orig(d, *a, **kw)
                    fr.rvs = lambda size=None, random_state=None: rvs(*a, **dict(kw, size=size))
                    return fr
                return rvs, freeze
            rvs, freeze = mk(d, k)
            d.rvs = rvs
            d.freeze = freeze.__get__(d)
            d.__class__.__call__  # noqa
            self.restore.append(("del", d, ("rvs", "freeze")))

    def leave(self):
        for t in reversed(self.restore):
            if t[0] == "del":
                for n in t[2]:
                    t[1].__dict__.pop(n, None)
            else:
                setattr(t[0], t[1], t[2])
        self.restore = []
