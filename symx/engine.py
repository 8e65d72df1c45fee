"""Path exploration by re-execution, SMT encoding of terms, proof queries."""
import math, time, random, itertools, traceback
from fractions import Fraction
import z3
from . import terms as T
from .terms import Sym, SymBool, EngineGap, Prune, S, ONE


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.refinements = 0

    def as_dict(self):
        return dict(self.__dict__)


def rv(fr):
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


RVAL = {}
CTX = z3.main_ctx()
ZREF = CTX.ref()
PAIR = z3.z3types.Ast * 2


def rval(fr):
    v = RVAL.get(fr)
    if v is None:
        if len(RVAL) > 50000:
            RVAL.clear()
        v = RVAL[fr] = z3.RealVal("%d/%d" % (fr.numerator, fr.denominator) if fr.denominator != 1 else str(fr.numerator))
    return v


def zmul(a, b):
    """a * b of two real z3 terms, without the wrapper's coercions"""
    return z3.ArithRef(z3.z3core.Z3_mk_mul(ZREF, 2, PAIR(a.ast, b.ast)), CTX)


def zsum(ts):
    return z3.ArithRef(z3.z3core.Z3_mk_add(ZREF, len(ts), (z3.z3types.Ast * len(ts))(*[t.ast for t in ts])), CTX)


class Encoder(object):
    """encodes a set of formulas plus every definition and axiom their atoms need.

    level 1: every non-linear monomial is an opaque variable with sign facts (linear arithmetic)
    level 2: products of base variables (non-linear real arithmetic)
    """

    def __init__(self, engine, level, cuts=None):
        self.e = engine
        self.level = level
        self.cs = []
        self.atoms_done = set()
        self.pow_units = {}
        self.monos = {}
        self.pending = []
        self.z = {}
        self.exps = {}
        self.cuts = cuts or {}
        self.used_fn = {}

    # pass 1: collect the exponents with which each atom occurs, transitively
    def collect(self, forms):
        seen = set()
        work = list(forms)
        polys = []
        while work:
            f = work.pop()
            if isinstance(f, SymBool):
                if f.op in (">", ">=", "=="):
                    work.append(f.a)
                elif f.op == "not":
                    work.append(f.a)
                elif f.op in ("and", "or"):
                    work += [f.a, f.b]
                continue
            polys.append(f)
            for m in f.t:
                for i, e in m:
                    self.exps.setdefault(i, set()).add(e)
                    if i not in seen:
                        seen.add(i)
                        a = S.atoms[i]
                        if a.kind == "sum":
                            work.append(a.data)
                        elif a.kind == "log":
                            work.append(Sym.of_atom(S.atoms[a.data]))
                        elif a.kind == "e10":
                            work.append(Sym({a.data: Fraction(1)}))
                        elif a.kind == "fn":
                            for x in a.data[1]:
                                work.append(x)
                        for ax in self.e.axioms_for(i):
                            work.append(ax)
        self.seen = seen

    def choose_units(self):
        for i, es in self.exps.items():
            es = {abs(e) for e in es}
            if all(e.denominator == 1 for e in es):
                self.pow_units[i] = ("int", Fraction(1))
                continue
            small = min(es)
            done = False
            for k in (1, 2, 3, 4, 5, 6):
                u = small / k
                if all((e / u).denominator == 1 and e / u <= 12 for e in es):
                    # relation to the atom itself
                    inv = Fraction(1) / u
                    self.pow_units[i] = ("unit", u)
                    done = True
                    break
            if done and self.kind(i) != "e10":
                # need 1/u integer and small so that the atom itself is a power of the unit
                u = self.pow_units[i][1]
                if (1 / u).denominator != 1 or 1 / u > 6:
                    done = False
            if not done:
                self.pow_units[i] = ("frac", None)

    def kind(self, i):
        return S.atoms[i].kind

    def base(self, i):
        """z3 variable of atom i itself"""
        v = self.z.get(("a", i))
        if v is None:
            a = S.atoms[i]
            v = z3.Int("i%d" % i) if a.integer else z3.Real("x%d" % i)
            if a.integer:
                v = z3.ToReal(v)
            self.z[("a", i)] = v
        return v

    def unitvar(self, i):
        mode, u = self.pow_units[i]
        v = self.z.get(("u", i))
        if v is None:
            v = z3.Real("u%d" % i)
            self.z[("u", i)] = v
            if S.atoms[i].sign == "+" or self.e.path_sign.get(i) == "+":
                self.cs.append(v > 0)
            else:
                self.cs.append(v >= 0)
        return v

    def fracvar(self, i, f):
        v = self.z.get(("f", i, f))
        if v is None:
            v = z3.Real("f%d_%d_%d" % (i, f.numerator % 10 ** 9, f.denominator % 10 ** 9))
            self.z[("f", i, f)] = v
            x = self.base(i)
            strict = S.atoms[i].sign == "+" or self.e.path_sign.get(i) == "+"
            self.cs.append(v > 0 if strict else v >= 0)
            self.cs.append(z3.Implies(x >= 1, z3.And(v >= 1, v <= x)))
            self.cs.append(z3.Implies(x <= 1, z3.And(v <= 1, v >= x)))
            p = rval(f)
            self.cs.append(v <= 1 + p * (x - 1))
            self.frac_list = getattr(self, "frac_list", [])
            self.frac_list.append((i, f, v))
        return v

    def atom_pow(self, i, e):
        """z3 term for atom ** e, e >= 0"""
        mode, u = self.pow_units[i]
        if mode == "int":
            if e.denominator != 1:
                raise EngineGap("exponent bookkeeping")
            return pw(self.base(i), int(e))
        if mode == "unit":
            k = e / u
            return pw(self.unitvar(i), int(k))
        k = math.floor(e)
        f = e - k
        t = pw(self.base(i), k) if k else None
        if f:
            fv = self.fracvar(i, f)
            t = fv if t is None else t * fv
        return t if t is not None else z3.RealVal(1)

    def mono(self, m):
        if m == ONE:
            return z3.RealVal(1)
        if len(m) == 1 and m[0][1] == 1 and self.pow_units[m[0][0]][0] == "int":
            return self.base(m[0][0])
        if self.level == 1:
            v = self.monos.get(m)
            if v is None:
                v = z3.Real("m%d" % len(self.monos))
                self.monos[m] = v
                s = T.static_sign(Sym({m: Fraction(1)}))
                if s == "+":
                    self.cs.append(v > 0)
                elif s == "0+":
                    self.cs.append(v >= 0)
                elif s == "-":
                    self.cs.append(v < 0)
                elif s == "0-":
                    self.cs.append(v <= 0)
            return v
        t = None
        for i, e in m:
            x = self.atom_pow(i, e)
            t = x if t is None else t * x
        return t

    def clear(self, p):
        """multiply by positive factors so that all exponents are >= 0 (and gcd monomial of known sign removed)"""
        if not p.t:
            return p
        mins = {}
        first = True
        for m in p.t:
            d = dict(m)
            if first:
                mins = dict(d)
                first = False
            else:
                for i in set(mins) | set(d):
                    n = min(mins.get(i, Fraction(0)), d.get(i, Fraction(0)))
                    if n:
                        mins[i] = n
                    else:
                        mins.pop(i, None)
        fac = []
        flip = False
        for i, e in mins.items():
            sg = self.e.path_sign.get(i, S.atoms[i].sign)
            if sg == "+":
                fac.append((i, -e))
            elif sg == "-" and e.denominator == 1:
                fac.append((i, -e))
                if e.numerator % 2:
                    flip = not flip
            elif e < 0:
                k = -e
                if k.denominator != 1 and sg == "0+":
                    fac.append((i, k))
                    continue
                k = Fraction(math.ceil(k))
                if k.numerator % 2 and sg != "0+":
                    k += 1
                fac.append((i, k))
        if not fac:
            return p
        fac = tuple(sorted(fac))
        for i, _ in fac:
            pass
        q = {}
        for m, c in p.t.items():
            q[T.mono_mul(m, fac)] = -c if flip else c
        return Sym(q)

    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            if m == ONE:
                ts.append(rval(c))
            else:
                ts.append(zmul(rval(c), self.mono(m)) if c != 1 else self.mono(m))
        return zsum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def prep(self, f):
        if isinstance(f, Sym):
            return f
        if f.op in (">", ">="):
            return SymBool(f.op, self.clear(f.a))
        if f.op == "==":
            return SymBool("==", self.clear(f.a))
        if f.op == "const":
            return f
        if f.op == "not":
            return SymBool("not", self.prep(f.a))
        return SymBool(f.op, self.prep(f.a), self.prep(f.b))

    def form(self, f):
        if f.op == "const":
            return z3.BoolVal(f.a)
        if f.op == "not":
            return z3.Not(self.form(f.a))
        if f.op == "and":
            return z3.And(self.form(f.a), self.form(f.b))
        if f.op == "or":
            return z3.Or(self.form(f.a), self.form(f.b))
        x = self.poly(f.a)
        return x > 0 if f.op == ">" else x >= 0 if f.op == ">=" else x == 0

    def encode(self, forms):
        plain = forms
        forms = [self.prep(f) for f in forms]
        # clearing factors of known sign must not lose the factors' own definitions and signs
        self.collect(list(forms) + list(plain))
        axs = {}
        changed = True
        # axioms and definitions
        defs = []
        for i in sorted(self.seen):
            a = S.atoms[i]
            if a.kind == "sum":
                d = self.prep(SymBool("==", a.data - Sym.of_atom(a)))
                defs.append(d)
            for ax in self.e.axioms_for(i):
                defs.append(self.prep(ax))
        for d in defs:
            for m in walk_monos(d):
                for i, e in m:
                    self.exps.setdefault(i, set()).add(e)
        for i in list(self.exps):
            a = S.atoms[i]
            if a.kind == "e10":
                for j, e in a.data:
                    self.exps.setdefault(j, set()).add(e)
            if a.kind == "fn":
                for x in a.data[1]:
                    for m in x.t:
                        for j, e in m:
                            self.exps.setdefault(j, set()).add(e)
            if a.kind == "log":
                self.exps.setdefault(a.data, set()).add(Fraction(1))
        self.choose_units()
        out = [self.form(f) for f in forms]
        for d in defs:
            self.cs.append(self.form(d))
        for i in sorted(self.exps):
            self.atom_axioms(i)
        self.pair_axioms()
        return out + self.cs

    def need_base(self, i):
        mode, u = self.pow_units[i]
        if mode == "unit":
            inv = 1 / u
            if inv.denominator == 1 and inv <= 6:
                return pw(self.unitvar(i), int(inv))
            return None
        return self.base(i)

    def atom_axioms(self, i):
        a = S.atoms[i]
        b = self.need_base(i)
        sg = self.e.path_sign.get(i, a.sign)
        if b is not None:
            if sg == "+":
                self.cs.append(b > 0)
            elif sg == "0+":
                self.cs.append(b >= 0)
            elif sg == "-":
                self.cs.append(b < 0)
            if a.lo is not None:
                v, st = a.lo
                self.cs.append(b > rval(v) if st else b >= rval(v))
            if a.hi is not None:
                v, st = a.hi
                self.cs.append(b < rval(v) if st else b <= rval(v))
        if a.kind == "log":
            arg = self.need_base(a.data)
            if arg is not None:
                self.cs.append(z3.Implies(arg >= 1, b >= 0))
                self.cs.append(z3.Implies(arg <= 1, b <= 0))
                self.cs.append(z3.Implies(arg > 1, b > 0))
                self.cs.append(z3.Implies(arg < 1, b < 0))
                k = rval(Fraction("0.4342944819032519"))
                self.cs.append(b <= k * (arg - 1))
                # L >= k (1 - 1/arg)
                self.cs.append(b * arg >= k * (arg - 1))
                for (x0, y0) in self.cuts.get(("log", i), []):
                    self.cs.append(b <= rval(y0) + rval(Fraction("0.4342944819") / x0) * (arg - rval(x0)) + rval(Fraction(1, 10 ** 9)))
                for (x0, y0, x1, y1) in self.cuts.get(("logs", i), []):
                    sl = (y1 - y0) / (x1 - x0)
                    self.cs.append(z3.Implies(z3.And(arg >= rval(x0), arg <= rval(x1)), b >= rval(y0) + rval(sl) * (arg - rval(x0)) - rval(Fraction(1, 10 ** 9))))
        if a.kind == "e10":
            mode, u = self.pow_units[i]
            m = self.mono(a.data)
            if mode == "unit":
                v, sc = self.unitvar(i), u
            else:
                v, sc = self.base(i), Fraction(1)
            self.cs.append(v > 0)
            k = rval(sc * T.LN10)
            self.cs.append(z3.Implies(m > 0, v > 1))
            self.cs.append(z3.Implies(m < 0, v < 1))
            self.cs.append(z3.Implies(m == 0, v == 1))
            self.cs.append(v >= 1 + k * m)
            self.cs.append(v * (1 - k * m) <= 1)
            for (x0, y0) in self.cuts.get(("e10", i, sc), []):
                self.cs.append(v >= rval(y0) * (1 + k * (m - rval(x0))) * rval(1 - Fraction(1, 10 ** 12)) - rval(abs(y0) * Fraction(1, 10 ** 10)))
            for (x0, y0, x1, y1) in self.cuts.get(("e10s", i, sc), []):
                sl = (y1 - y0) / (x1 - x0)
                self.cs.append(z3.Implies(z3.And(m >= rval(x0), m <= rval(x1)), v <= rval(y0) + rval(sl) * (m - rval(x0)) + rval(abs(y1) * Fraction(1, 10 ** 9))))

    def pair_axioms(self):
        logs = [i for i in self.exps if S.atoms[i].kind == "log"]
        if len(logs) <= 12:
            for i, j in itertools.combinations(logs, 2):
                a, b = self.need_base(S.atoms[i].data), self.need_base(S.atoms[j].data)
                if a is None or b is None:
                    continue
                la, lb = self.base(i), self.base(j)
                self.cs.append((a <= b) == (la <= lb))
                self.cs.append((a < b) == (la < lb))
        es = [i for i in self.exps if S.atoms[i].kind == "e10"]
        if len(es) <= 10:
            for i, j in itertools.combinations(es, 2):
                (mi, ui), (mj, uj) = self.pow_units[i], self.pow_units[j]
                a, b = self.mono(S.atoms[i].data), self.mono(S.atoms[j].data)
                va = self.unitvar(i) if mi == "unit" else self.base(i)
                vb = self.unitvar(j) if mj == "unit" else self.base(j)
                sa = rval(ui) if mi == "unit" else z3.RealVal(1)
                sb = rval(uj) if mj == "unit" else z3.RealVal(1)
                self.cs.append((sa * a <= sb * b) == (va <= vb))
        fr = getattr(self, "frac_list", [])
        # x**f jointly monotone for equal f ; ordered in f for equal atom
        if len(fr) <= 14:
            for (i, f, v), (j, g, w) in itertools.combinations(fr, 2):
                if f == g and i != j:
                    self.cs.append((self.base(i) <= self.base(j)) == (v <= w))
                elif i == j:
                    lo, hi = ((f, v), (g, w)) if f < g else ((g, w), (f, v))
                    self.cs.append(z3.Implies(self.base(i) >= 1, lo[1] <= hi[1]))
                    self.cs.append(z3.Implies(self.base(i) <= 1, lo[1] >= hi[1]))
        groups = {}
        for i in self.exps:
            a = S.atoms[i]
            if a.kind == "fn":
                groups.setdefault((a.data[0], len(a.data[1])), []).append(i)
        for (name, n), ids in groups.items():
            if len(ids) > 14 or n == 0:
                continue
            for i, j in itertools.combinations(ids, 2):
                x, y = self.need_base(i), self.need_base(j)
                if x is None or y is None:
                    continue
                xs, ys = S.atoms[i].data[1], S.atoms[j].data[1]
                eqs = []
                skip = False
                for p, q in zip(xs, ys):
                    d = p - q
                    if d.is_const():
                        if d.value() != 0:
                            skip = True
                        continue
                    eqs.append((p, q))
                mono = self.e.fn_monotone.get(name)
                if not skip:
                    self.cs.append(z3.Implies(z3.And([self.poly_safe(p) == self.poly_safe(q) for p, q in eqs]), x == y))
                if mono and n == 1:
                    p, q = self.poly_safe(xs[0]), self.poly_safe(ys[0])
                    if mono == "inc":
                        self.cs.append((p < q) == (x < y))
                        self.cs.append((q < p) == (y < x))
                    elif mono == "dec":
                        self.cs.append((p < q) == (x > y))
                        self.cs.append((q < p) == (y > x))
                    elif mono == "noninc":
                        self.cs.append(z3.Implies(p <= q, x >= y))
                        self.cs.append(z3.Implies(q <= p, y >= x))
                    elif mono == "phi":  # strictly increasing except where it has reached 0 or 1
                        flat = z3.And(x == y, z3.Or(x == 0, x == 1))
                        self.cs.append(z3.Implies(p < q, z3.Or(x < y, flat)))
                        self.cs.append(z3.Implies(q < p, z3.Or(y < x, flat)))
                    elif mono == "nondec":
                        self.cs.append(z3.Implies(p <= q, x <= y))
                        self.cs.append(z3.Implies(q <= p, y <= x))

    def poly_safe(self, p):
        neg = False
        for m in p.t:
            for i, e in m:
                if e < 0:
                    neg = True
        if not neg:
            return self.poly(p)
        # introduce inverses by opaque quotient: use z3 division on cleared polynomial
        q = self.clear_any(p)
        return q

    def clear_any(self, p):
        den = {}
        for m in p.t:
            for i, e in m:
                if e < 0:
                    den[i] = max(den.get(i, Fraction(0)), -e)
        d = tuple(sorted(den.items()))
        for i, e in d:
            if e not in self.exps.get(i, ()):  # may need a fractional power not yet known
                pass
        num = Sym({T.mono_mul(m, d): c for m, c in p.t.items()})
        try:
            return self.poly(num) / self.mono(d)
        except EngineGap:
            return z3.FreshReal("q")


def pw(v, k):
    t = v
    for _ in range(k - 1):
        t = t * v
    return t if k else z3.RealVal(1)


def walk_monos(f):
    if isinstance(f, Sym):
        for m in f.t:
            yield m
        return
    if f.op in (">", ">=", "=="):
        for m in f.a.t:
            yield m
    elif f.op == "not":
        yield from walk_monos(f.a)
    elif f.op in ("and", "or"):
        yield from walk_monos(f.a)
        yield from walk_monos(f.b)


def atoms_of(f, acc):
    for m in walk_monos(f):
        for i, e in m:
            if i not in acc:
                acc.add(i)
                a = S.atoms[i]
                if a.kind == "sum":
                    atoms_of(a.data, acc)
                elif a.kind == "log":
                    atoms_of(Sym.of_atom(S.atoms[a.data]), acc)
                elif a.kind == "e10":
                    atoms_of(Sym({a.data: Fraction(1)}), acc)
                elif a.kind == "fn":
                    for x in a.data[1]:
                        atoms_of(x, acc)
    return acc


class Failure(Exception):
    pass


class Engine(object):
    """one harness: explores all paths"""

    def __init__(self, seed=1, feas_ms=1500, prove_ms=20000, max_paths=4000, budget_s=240):
        self.stats = Stats()
        self.seed = seed
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.ax = {}
        self.ax_index = {}
        self.fn_monotone = {"arctan": "inc", "ndtr": "phi"}
        self.fn_conc = {}
        self.path_sign = {}
        S.engine = self
        self.prefix = []
        self.trace = []
        self.pc = []
        self.decided = {}
        self.sign_cache = {}
        self.in_decide = False
        self.int_bound = 8
        self.bound_scopes = []

    # ---- axioms attached to atoms --------------------------------------------------------------------------------
    def axiom(self, key, mk, attach=()):
        if key in self.ax:
            return
        f = mk()
        self.ax[key] = f
        if isinstance(f, SymBool) and f.op == "const":
            return
        ids = set()
        for m in walk_monos(f):
            for i, e in m:
                ids.add(i)
        for i in ids:
            if S.atoms[i].kind == "fn" and not attach or i in attach:
                self.ax_index.setdefault(i, []).append(f)

    def axioms_for(self, i):
        return self.ax_index.get(i, ())

    # ---- solving -------------------------------------------------------------------------------------------------
    def relevant(self, forms):
        """path conditions sharing atoms (transitively) with forms"""
        acc = set()
        for f in forms:
            atoms_of(f, acc)
        scope = [c for _, cs in self.bound_scopes for c in cs if c.op != "const"]
        rest = [(c, atoms_of(c, set())) for c in self.pc + scope]
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, a in rest:
                if a & acc:
                    out.append(c)
                    acc |= a
                    changed = True
                else:
                    nxt.append((c, a))
            rest = nxt
        return out

    def solve(self, forms, level, ms, cuts=None, extra=None, want_model=False):
        """returns ('sat'|'unsat'|'unknown', model, encoder)"""
        enc = Encoder(self, level, cuts)
        zs = enc.encode(forms)
        t0 = time.time()
        s = z3.Solver() if level == 1 or any(S.atoms[i].integer for i in enc.exps) else None
        if s is None:
            s = z3.Tactic("qfnra-nlsat").solver() if want_model == "nlsat" else z3.Solver()
        s.set("timeout", int(ms))
        if want_model != "nlsat":
            s.set("random_seed", self.seed)
        for c in zs:
            s.add(c)
        for c in (extra(enc) if extra else ()):
            s.add(c)
        r = str(s.check())
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        m = s.model() if r == "sat" else None
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, m, enc

    def feasible(self, sb):
        """'sat' / 'unsat' / 'unknown' for pc & sb"""
        if sb.op == "const":
            return "sat" if sb.a else "unsat"
        l = power_form(sb)
        if l is not None:
            forms = self.relevant([l]) + [l]
            if self.solve(forms, 1, self.feas_ms)[0] == "unsat":
                return "unsat"
        forms = self.relevant([sb]) + [sb]
        r, m, e = self.solve(forms, 1, self.feas_ms)
        if r == "unsat":
            return "unsat"
        if self.is_linear(forms):
            return r
        r, m, e = self.solve(forms, 2, self.feas_ms)
        return r

    def is_linear(self, forms):
        ids = set()
        for f in forms:
            atoms_of(f, ids)
        for i in ids:
            if S.atoms[i].kind != "var":
                return False
        for f in forms:
            for m in walk_monos(f):
                if len(m) > 1 or (m and m[0][1] != 1):
                    return False
        return True

    def dynamic_sign(self, p):
        if not self.pc:
            pass
        k = (p.key(), len(self.pc))
        if k in self.sign_cache:
            return self.sign_cache[k]
        r = None
        save = self.stats
        if self.feasible(SymBool(">=", -p)) == "unsat":
            r = "+"
        elif self.feasible(SymBool(">=", p)) == "unsat":
            r = "-"
        elif self.feasible(SymBool(">", -p)) == "unsat":
            r = "0+"
        self.sign_cache[k] = r
        if r is not None and len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                if r in ("+", "-") or (r == "0+" and S.atoms[m[0][0]].sign is None):
                    self.path_sign[m[0][0]] = r
        return r

    # ---- decisions -----------------------------------------------------------------------------------------------
    def fkey(self, sb):
        if sb.op in (">", ">=", "=="):
            return (sb.op, sb.a.key())
        if sb.op == "not":
            return ("not", self.fkey(sb.a))
        return (sb.op, self.fkey(sb.a), self.fkey(sb.b))

    def decide(self, sb):
        k = self.fkey(sb)
        if k in self.decided:
            return self.decided[k]
        if time.time() > self.deadline:
            raise TimeoutError("symbolic exploration budget exhausted")
        pos = len(self.trace)
        neg = ~sb
        if self.bound_scopes:
            ids = atoms_of(sb, set())
            if any(t in ids for t, _ in self.bound_scopes):
                if self.feasible(sb) == "unsat":
                    return False
                if self.feasible(neg) == "unsat":
                    return True
                raise EngineGap("branch on an integration variable")
        if pos < len(self.prefix):
            v = self.prefix[pos][0]
            forced = self.prefix[pos][1]
        else:
            self.stats.decisions += 1
            ft = self.feasible(sb)
            if ft == "unsat":
                v, forced = False, True
            else:
                ff = self.feasible(neg)
                if ff == "unsat":
                    v, forced = True, True
                else:
                    v, forced = True, False
        self.trace.append((v, forced))
        f = sb if v else neg
        self.decided[k] = v
        kn = self.fkey(neg)
        self.decided[kn] = not v
        self.pc.append(f)
        self.learn(f)
        return v

    def learn(self, f):
        """cheap sign facts about atoms from the path condition"""
        if f.op in (">", ">=") and len(f.a.t) >= 1:
            a = f.a
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if len(m) == 1:
                    i, e = m[0]
                    if S.atoms[i].sign not in ("+", "-") and e.denominator == 1 and e.numerator % 2:
                        s = ("+" if c > 0 else "-") if f.op == ">" else ("0+" if c > 0 else None)
                        if s and self.path_sign.get(i) not in ("+", "-"):
                            self.path_sign[i] = s
            if len(a.t) > 1:
                c, m, at = T.normal_sum(a)
                if T.static_sign(Sym({m: Fraction(1)})) == "+" and f.op == ">" and at.sign not in ("+", "-"):
                    self.path_sign[at.id] = "+" if c > 0 else "-"

    def choice(self, n):
        """fork over n alternatives (recorded as decisions)"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos][0]
        else:
            v = 0
        self.trace.append((v, False, n))
        return v

    def concretize_int(self, p, exact=False):
        fl = p if exact else p.trunc() if isinstance(p, Sym) else p
        for k in [0] + [s * j for j in range(1, self.int_bound + 1) for s in (1, -1)]:
            if bool(T.cmp_(fl, Sym.const(k), "==")):
                return k
        raise Prune("integer outside the stated bound")

    def assume(self, sb):
        if not isinstance(sb, SymBool):
            if not sb:
                raise Prune("assumption false")
            return
        if sb.op == "const":
            if not sb.a:
                raise Prune("assumption false")
            return
        if self.feasible(sb) == "unsat":
            raise Prune("assumption infeasible")
        self.pc.append(sb)
        self.decided[self.fkey(sb)] = True
        self.learn(sb)

    # ---- exploration ---------------------------------------------------------------------------------------------
    def explore(self, run):
        """run(engine) executes one path; yields after each path"""
        self.prefix = []
        while True:
            if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                raise TimeoutError("path budget exhausted (%d paths)" % self.stats.paths)
            self.trace = []
            self.pc = list(self.base_pc) if hasattr(self, "base_pc") else []
            self.decided = {}
            self.path_sign = {}
            self.sign_cache = {}
            self.stats.paths += 1
            yield run(self)
            # next prefix
            t = list(self.trace)
            while t:
                last = t.pop()
                if len(last) == 3:
                    if last[0] + 1 < last[2]:
                        t.append((last[0] + 1, False, last[2]))
                        break
                elif not last[1] and last[0] is True:
                    t.append((False, True))
                    break
            else:
                return
            self.prefix = t

    # ---- proving -------------------------------------------------------------------------------------------------
    def prove(self, sb):
        r = self.prove_direct(sb)
        if r[0] != "proved" and not getattr(self, "in_abs", False):
            self.in_abs = True
            try:
                if self.prove_abstract(sb):
                    return "proved", None, None
            finally:
                self.in_abs = False
        return r

    def prove_abstract(self, sb):
        """second attempt: products of radicals in the goal become variables, related by what can be proved about them.
        Only forgets relations, so a proof stays a proof."""
        neg = ~sb
        if neg.op == "const":
            return False
        neg = reduce_common(neg)
        R = set()
        monos = set(walk_monos(neg))
        for m in monos:
            for i, e in m:
                if e.denominator != 1:
                    R.add(i)
        if not R or len(R) > 8:
            return False
        dirs = {}
        rad = {}
        for m in monos:
            r = tuple((i, e) for i, e in m if i in R)
            if not r:
                continue
            lead = r[0][1]
            key = tuple((i, e / lead) for i, e in r)
            dirs.setdefault(key, []).append(lead)
            rad[m] = (key, lead)
        if len(dirs) > 6 or not dirs:
            return False
        var = {}
        for key, leads in dirs.items():
            g = abs(leads[0])
            for l in leads[1:]:
                g = Fraction(math.gcd(g.numerator * l.denominator, abs(l.numerator) * g.denominator), g.denominator * l.denominator)
            if any(abs(l / g) > 8 for l in leads):
                return False
            if all(l < 0 for l in leads):
                g = -g
            base = tuple((i, e * g) for i, e in key)
            if any(S.engine.path_sign.get(i, S.atoms[i].sign) != "+" for i, _ in base):
                return False
            a = S.atom(("rad", base), "var", "rad%r" % (base,))
            a.lo, a.sign = (Fraction(0), True), "+"
            var[key] = (a, g, Sym({T.mono_pow(base, 1): Fraction(1)}))

        def sub(f):
            if f.op in (">", ">=", "=="):
                t = {}
                for m, c in f.a.t.items():
                    if m in rad:
                        key, lead = rad[m]
                        a, g, _ = var[key]
                        m2 = T.mono_mul(tuple((i, e) for i, e in m if i not in R), ((a.id, lead / g),))
                    else:
                        m2 = m
                    t[m2] = t.get(m2, Fraction(0)) + c
                return SymBool(f.op, Sym({m: c for m, c in t.items() if c}))
            if f.op == "not":
                return ~sub(f.a)
            if f.op == "and":
                return sub(f.a) & sub(f.b)
            if f.op == "or":
                return sub(f.a) | sub(f.b)
            return f
        facts = []
        vs = list(var.values())
        pairs = [(v, None) for v in vs] + list(itertools.combinations(vs, 2))
        for v, w in pairs:
            y = Sym.const(1) if w is None else w[2]
            yv = Sym.const(1) if w is None else Sym.of_atom(w[0])
            xv = Sym.of_atom(v[0])
            save = self.prove_ms
            self.prove_ms = min(save, 1500)
            try:
                if self.prove_direct(T.cmp_(v[2], y, ">="))[0] == "proved":
                    facts.append(T.cmp_(xv, yv, ">="))
                elif self.prove_direct(T.cmp_(y, v[2], ">="))[0] == "proved":
                    facts.append(T.cmp_(yv, xv, ">="))
            except EngineGap:
                pass
            finally:
                self.prove_ms = save
        if not facts:
            return False
        goal = sub(neg)
        forms = self.relevant([goal]) + facts + [goal]
        r, m, e = self.solve(forms, 2, self.prove_ms)
        return r == "unsat"

    def prove_direct(self, sb):
        """pc => sb ?  returns ('proved', None, None) | ('refuted', model, enc) | ('unknown', None, None)"""
        if sb.op == "const":
            if sb.a:
                self.stats.trivial += 1
                return "proved", None, None
        neg = ~sb
        forms = self.relevant([neg]) + [neg]
        if neg.op == "const":
            if not neg.a:
                return "proved", None, None
            forms = list(self.pc)
        r, m, e = self.solve(forms, 1, 5000)
        if r == "unsat":
            return "proved", None, None
        lin = self.is_linear(forms)
        if lin and r == "sat":
            r, m, e = self.solve(list(self.pc) + [neg] if neg.op != "const" else list(self.pc), 1, self.prove_ms)
            if r == "sat":
                return "refuted", m, e
        cuts = {}
        for it in range(8):
            r, m, e = self.solve(forms, 2, min(self.prove_ms, 4000), cuts)
            if r == "unknown":
                r, m, e = self.solve(forms, 2, self.prove_ms, cuts, want_model="nlsat")
            if r == "unsat":
                return "proved", None, None
            if r == "unknown":
                return "unknown", None, None
            if not self.add_cuts(cuts, m, e):
                break
            self.stats.refinements += 1
        return "refuted", m, e

    def add_cuts(self, cuts, model, enc):
        """incremental linearisation of log / exp at the model point; False when the model already satisfies them"""
        import mpmath
        mpmath.mp.dps = 25
        bad = False
        for i in list(enc.exps):
            a = S.atoms[i]
            if a.kind == "log":
                arg = enc.need_base(a.data)
                if arg is None:
                    continue
                x0 = mval(model, arg)
                y = mval(model, enc.base(i))
                if x0 is None or y is None or x0 <= 0:
                    continue
                x0 = lim(x0)
                if x0 <= 0:
                    continue
                y0 = Fraction(mpmath.nstr(mpmath.log10(mpmath.mpf(x0.numerator) / x0.denominator), 18))
                if abs(y - y0) > Fraction(1, 10 ** 7) * max(1, abs(y0)):
                    bad = True
                    cuts.setdefault(("log", i), []).append((x0, y0))
                    self.secants(cuts, ("logpts", i), ("logs", i), x0, y0)
            elif a.kind == "e10":
                mode, u = enc.pow_units[i]
                sc = u if mode == "unit" else Fraction(1)
                v = enc.unitvar(i) if mode == "unit" else enc.base(i)
                x0 = mval(model, enc.mono(a.data))
                y = mval(model, v)
                if x0 is None or y is None:
                    continue
                x0 = lim(x0)
                if abs(x0 * sc) > 60:
                    continue
                ex = x0 * sc
                y0 = Fraction(mpmath.nstr(mpmath.power(10, mpmath.mpf(ex.numerator) / ex.denominator), 18))
                if abs(y - y0) > Fraction(1, 10 ** 7) * y0:
                    bad = True
                    cuts.setdefault(("e10", i, sc), []).append((x0, y0))
                    self.secants(cuts, ("e10pts", i, sc), ("e10s", i, sc), x0, y0)
        return bad

    def secants(self, cuts, kp, ks, x0, y0):
        pts = cuts.setdefault(kp, [])
        pts.append((x0, y0))
        pts.sort()
        j = pts.index((x0, y0))
        for k in (j - 1, j + 1):
            if 0 <= k < len(pts) and pts[k][0] != x0:
                a, b = sorted([pts[k], (x0, y0)])
                cuts.setdefault(ks, []).append((a[0], a[1], b[0], b[1]))

    def model_inputs(self, model, enc):
        """values of the input variables (others: free, take a value inside their bounds)"""
        out = {}
        for a in S.atoms:
            if a.kind != "var":
                continue
            v = None
            if a.id in enc.exps:
                b = enc.need_base(a.id)
                if b is not None:
                    v = mval(model, b)
            if v is None:
                v = self.default_value(a)
            out[a.name] = float(v)
        return out

    def default_value(self, a):
        v = self._default_value(a)
        return Fraction(round(v)) if a.integer else v

    def _default_value(self, a):
        lo = a.lo[0] if a.lo else None
        hi = a.hi[0] if a.hi else None
        rnd = random.Random("%s/%s" % (self.seed, a.name))
        if lo is not None and hi is not None:
            if lo > 0 and hi / lo > 100:
                return Fraction(math.exp(rnd.uniform(math.log(float(lo)), math.log(float(hi)))))
            return lo + (hi - lo) * Fraction(rnd.uniform(0.1, 0.9))
        if lo is not None:
            return lo + Fraction(rnd.uniform(0.5, 2))
        if hi is not None:
            return hi - Fraction(rnd.uniform(0.5, 2))
        return Fraction(rnd.uniform(-2, 2))


def reduce_common(f):
    """divide each comparison by a positive monomial so that one term loses its radicals"""
    if f.op in (">", ">=", "=="):
        best = None
        for m in f.a.t:
            r = tuple((i, e) for i, e in m if S.engine.path_sign.get(i, S.atoms[i].sign) == "+" and (e.denominator != 1 or e < 0))
            if best is None or len(r) < len(best):
                best = r
        if not best:
            return f
        inv = T.mono_pow(best, -1)
        return SymBool(f.op, Sym({T.mono_mul(m, inv): c for m, c in f.a.t.items()}))
    if f.op == "not":
        return ~reduce_common(f.a)
    if f.op == "and":
        return reduce_common(f.a) & reduce_common(f.b)
    if f.op == "or":
        return reduce_common(f.a) | reduce_common(f.b)
    return f


def power_form(sb):
    """c1 * 10**p > c2 * 10**q as a comparison of exponents (slightly weaker, so that a refutation carries over)"""
    if sb.op not in (">", ">=", "==") or len(sb.a.t) != 2:
        return None
    (m1, c1), (m2, c2) = sb.a.t.items()
    if (c1 > 0) == (c2 > 0):
        return None
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    r = T.mono_mul(m1, T.mono_pow(m2, -1))
    if not r or any(S.atoms[i].kind != "e10" for i, _ in r):
        return None
    ratio = c1 / -c2
    k = Fraction(math.log10(ratio.numerator) - math.log10(ratio.denominator)) if ratio.numerator < 10 ** 300 and ratio.denominator < 10 ** 300 else None
    if k is None:
        return None
    op = sb.op
    n = round(k)
    if abs(k - n) < Fraction(1, 10 ** 9) and ratio == Fraction(10) ** n:
        k = Fraction(n)
    else:
        if op == "==":
            return None
        k, op = k + Fraction(1, 10 ** 11), ">="
    d = Sym({ONE: k} if k else {})
    for i, e in r:
        d = d + Sym({S.atoms[i].data: e})
    return SymBool(op, d)


def lim(x):
    return x.limit_denominator(10 ** 9) if abs(x) > Fraction(1, 10 ** 6) else Fraction(float(x)).limit_denominator(10 ** 15) if x else x


def mval(model, term):
    v = model.eval(term, model_completion=True)
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


# ---- concrete evaluation of terms (true functions) -------------------------------------------------------------------
def neval(p, env, conc, memo=None):
    memo = {} if memo is None else memo
    tot = 0.0
    for m, c in p.t.items():
        v = float(c)
        for i, e in m:
            b = neval_atom(i, env, conc, memo)
            v *= b ** (int(e) if e.denominator == 1 else float(e))
        tot += v
    return tot


def neval_atom(i, env, conc, memo):
    if i in memo:
        return memo[i]
    a = S.atoms[i]
    if a.kind == "var":
        v = env[a.name]
    elif a.kind == "sum":
        v = neval(a.data, env, conc, memo)
    elif a.kind == "log":
        v = math.log10(neval_atom(a.data, env, conc, memo))
    elif a.kind == "e10":
        v = 10 ** neval(Sym({a.data: Fraction(1)}), env, conc, memo)
    else:
        name, args = a.data
        xs = [neval(x, env, conc, memo) for x in args]
        f = a.fn or conc.get(name) or {"sin": math.sin, "cos": math.cos, "arctan": math.atan, "arcsin": math.asin,
                                       "arccos": math.acos, "arctan2": math.atan2}.get(name)
        if f is None:
            raise KeyError("no concrete function for " + name)
        v = float(f(*xs))
    memo[i] = v
    return v


def neval_bool(f, env, conc, memo=None, slack=0.0):
    memo = {} if memo is None else memo
    if f.op == "const":
        return f.a
    if f.op == "not":
        return not neval_bool(f.a, env, conc, memo)
    if f.op == "and":
        return neval_bool(f.a, env, conc, memo) and neval_bool(f.b, env, conc, memo)
    if f.op == "or":
        return neval_bool(f.a, env, conc, memo) or neval_bool(f.b, env, conc, memo)
    v = neval(f.a, env, conc, memo)
    return v > 0 if f.op == ">" else v >= 0 if f.op == ">=" else v == 0
