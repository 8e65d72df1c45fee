"""Symbolic side of the harness interface."""
import math, random, sys, traceback, time
from fractions import Fraction
import numpy as np
from . import terms as T, engine as E, shim, loader
from .terms import Sym, SymBool, EngineGap, Prune, NanPath, S
from .ctx import BaseCtx
from .rng import Rng


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, tier, sink):
        BaseCtx.__init__(self, tier)
        self.e = engine
        self.sink = sink
        self.choices = {}
        self.rng = Rng(self)
        self.restore = []
        self.path_checks = 0
        self.vars = {}

    # ---- inputs --------------------------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, integer=False):
        key = ("var", name)
        new = key not in S.by_key
        a = S.atom(key, "var", name)
        if new or not isinstance(lo, Sym):
            loc, hic = None, None
            if lo is not None and not T.lift(lo).is_const() or hi is not None and not T.lift(hi).is_const():
                raise EngineGap("symbolic variable bounds")
            if lo is not None:
                loc = (T.lift(lo).value(), lo_strict)
            if hi is not None:
                hic = (T.lift(hi).value(), hi_strict)
            if not new and (a.lo, a.hi) != (loc, hic):
                # same draw index, other range on another path: keep apart
                return self.real("%s{%s,%s,%d%d}" % (name, lo, hi, lo_strict, hi_strict), lo, hi, lo_strict, hi_strict, integer) if "{" not in name else Sym.of_atom(a)
            a.lo, a.hi, a.integer = loc, hic, integer
            if loc is not None:
                a.sign = "+" if loc[0] > 0 or (loc[0] == 0 and lo_strict) else "0+" if loc[0] == 0 else None
            if hic is not None and (hic[0] < 0 or (hic[0] == 0 and hi_strict)):
                a.sign = "-"
        self.vars[name.split("{")[0]] = name
        return Sym.of_atom(a)

    def integer(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.real(name, lo, hi, integer=True)

    def choice(self, name, options):
        k = self.e.choice(len(options))
        self.choices[name] = k
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond, tol=None):
        self.e.assume(cond if isinstance(cond, SymBool) else bool(cond))

    def fn(self, name, conc, mono=None, lo=None, hi=None, lo_strict=False, hi_strict=False, ax=None, shared=False):
        """function of the environment: any function meeting the stated bounds / monotonicity / axioms"""
        self.e.fn_conc[name] = conc
        self.sink.fns.add(name)
        if mono:
            self.e.fn_monotone[name] = mono

        def f(*xs):
            xs = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in xs]
            if any(isinstance(x, (np.ndarray, list)) for x in xs):
                return shim.mapn(f, *xs)
            args = tuple(T.lift(x) for x in xs)
            at = T.fn_atom(name, args, lo=lo, hi=hi, lo_strict=lo_strict, hi_strict=hi_strict)
            if all(a.is_const() for a in args) and not shared:
                v = conc(*[float(a.value()) for a in args])
                if not mono:
                    return Sym.const(v)
                self.e.axiom(("pin", name, tuple(a.key() for a in args)), lambda: T.cmp_(at, Sym.const(v), "=="))
            if ax:
                for j, fml in enumerate(ax(at, *args)):
                    self.e.axiom(("fnax", name, j, tuple(a.key() for a in args)), lambda fml=fml: fml if isinstance(fml, SymBool) else T.TRUE)
            return at
        return f

    # ---- checks --------------------------------------------------------------------------------------------------
    def _settle(self, sb, label, margins=()):
        self.path_checks += 1
        self.sink.check(self, sb, label, margins)

    def check(self, cond, label):
        if isinstance(cond, SymBool):
            self._settle(cond, label)
        else:
            self._settle(T.lift_bool(bool(cond)), label)

    def le(self, a, b, label, tol=None):
        a, b = num(a), num(b)
        if a is None or b is None:
            return self.check(False, label + " (not a number)")
        d = b - a
        if tiny(d, a, b):
            return self._settle(T.TRUE, label)
        m = [T.cmp_(a - b, T.lift(x), ">") for x in scales(a, b)]
        self._settle(T.cmp_(d, Sym.const(0), ">="), label, m)

    def lt(self, a, b, label, tol=None):
        a, b = num(a), num(b)
        if a is None or b is None:
            return self.check(False, label + " (not a number)")
        m = [T.cmp_(a - b, T.lift(x), ">") for x in scales(a, b)]
        self._settle(T.cmp_(b - a, Sym.const(0), ">"), label, m)

    def close(self, a, b, label, rtol=1e-6, atol=0.0):
        a, b = num(a), num(b)
        if a is None or b is None:
            return self.check(False, label + " (not a number)")
        self._settle(close_form(a, b, rtol, atol), label, [])

    def eq_or(self, cond_pairs, label, rtol=1e-6):
        f = T.FALSE
        for a, b in cond_pairs:
            f = f | close_form(num(a), num(b), rtol, 0.0)
        self._settle(f, label, [])

    def observe(self, name, v):
        vals = [v] if isinstance(v, (Sym, SymBool, str)) or v is None else list(np.asarray(v, dtype=object).reshape(-1))
        for i, x in enumerate(vals):
            self.observed.append(("%s[%d]" % (name, i), x))

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        self.restore.append((obj, name, old))
        setattr(obj, name, value)

    def gap(self, msg):
        raise EngineGap(msg)

    def as_int(self, x):
        return int(x)

    def demote(self, a):
        return shim.demote(a)

    exp = staticmethod(lambda x: T.lift(x).exp())
    sinh = staticmethod(lambda x: T.lift(x).sinh())
    tanh = staticmethod(lambda x: T.lift(x).tanh())
    sqrt = staticmethod(lambda x: T.lift(x).sqrt())
    log = staticmethod(lambda x: T.lift(x).log())
    log10 = staticmethod(lambda x: T.lift(x).log10())
    cos = staticmethod(lambda x: T.lift(x).cos())
    sin = staticmethod(lambda x: T.lift(x).sin())

    @staticmethod
    def abs(x):
        return abs(T.lift(x))

    @staticmethod
    def min(a, b):
        return a if bool(T.lift(a) <= b) else b

    @staticmethod
    def max(a, b):
        return a if bool(T.lift(a) >= b) else b

    def implies(self, a, b):
        return ~T.lift_bool(a) | T.lift_bool(b)

    def quad(self, f, a, b):
        return shim.integral(f, a, b)

    def is_true(self, c):
        """does the condition hold on every input of this path"""
        if isinstance(c, SymBool):
            return self.e.prove(c)[0] == "proved"
        return bool(c)

    def same(self, a, b, rtol=1e-9):
        return self.is_true(close_form(num(a), num(b), rtol, 0.0))

    def exact_tables(self):
        shim.EXACT[0] = True

    def leave(self):
        for o, n, v in reversed(self.restore):
            setattr(o, n, v)
        self.restore = []


def num(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            return None
        x = x.reshape(-1)[0]
    if x is None or isinstance(x, str):
        return None
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        return None
    r = T.lift(x)
    return None if r is NotImplemented else r


def tiny(d, a, b, tol=Fraction(1, 10 ** 9)):
    """d = b - a vanishes up to the rounding of numerical constants"""
    if not d.t:
        return True
    for m, c in d.t.items():
        s = max(abs(a.t.get(m, Fraction(0))), abs(b.t.get(m, Fraction(0))))
        if abs(c) > tol * s:
            return False
    return True


def scales(a, b):
    out = []
    for p in (a, b):
        s = T.static_sign(p)
        if s in ("+", "0+"):
            out.append(p * Fraction(1, 100))
        elif s in ("-", "0-"):
            out.append(p * Fraction(-1, 100))
    out.append(Sym.const(Fraction(1, 100)))
    out.append(Sym.const(Fraction(1, 10 ** 5)))
    return out


def close_form(a, b, rtol, atol):
    d = a - b
    if tiny(d, a, b):
        return T.TRUE
    if len(a.t) > 1 or len(b.t) > 1:
        # compare after naming sums: equal up to factored form
        try:
            q = T.monomialize(a), T.monomialize(b)
            if len(q[0].t) == 1 and len(q[1].t) == 1:
                (m1, c1), = q[0].t.items()
                (m2, c2), = q[1].t.items()
                if m1 == m2 and abs(c1 - c2) <= Fraction(1, 10 ** 9) * abs(c2):
                    return T.TRUE
        except EngineGap:
            pass
    r = T.frac(rtol)
    at = T.frac(atol)
    s = T.static_sign(b)
    sa = T.static_sign(a)

    def band(w):
        w = w * r + at
        return T.cmp_(w - d, Sym.const(0), ">=") & T.cmp_(w + d, Sym.const(0), ">=")
    if s in ("+", "0+"):
        return band(b)
    if s in ("-", "0-"):
        return band(-b)
    return (T.cmp_(b, Sym.const(0), ">=") & band(b)) | (T.cmp_(Sym.const(0), b, ">=") & band(-b))
