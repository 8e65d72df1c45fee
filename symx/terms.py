"""Symbolic real terms in an exp/log/power normal form.

A term is a finite sum of monomials  c * prod_i atom_i ** e_i  with rational c and e_i (the class Sym).
Atoms are
  var   an input variable (bounded real)
  sum   a named multi-term sum S := P (normalised: leading coefficient one, no common monomial factor)
  log   log10 of an atom
  e10   10 ** m for a monomial m (coefficient normalised into the exponent of the atom)
  fn    application of an uninterpreted / axiomatised function to canonical arguments
Python floats enter as the decimal rational of their shortest representation; arithmetic is exact over the reals.
"""
from fractions import Fraction
import math, numbers

LN10 = Fraction("2.302585092994046")
KLOG = Fraction("0.4342944819032518")      # log10(e)
ONE = ()


class EngineGap(Exception):
    """the engine cannot represent an operation (never a property violation)"""


class Prune(BaseException):
    """path abandoned (assumption violated or outside the stated bounds)"""


class NanPath(ArithmeticError):
    """real arithmetic has no value here (log of non-positive, root of negative)"""


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise EngineGap("non-finite constant %r meets a symbolic value" % x)
    return Fraction(repr(x))


def snap(e, den=1000):
    """rational exponent / exponent coefficient: undo double rounding of simple fractions"""
    s = e.limit_denominator(den)
    if s != e and abs(e - s) <= Fraction(1, 10 ** 12) * max(1, abs(e)):
        return s
    return e


def round_sig(c, digits=13):
    if c == 0 or (c.denominator < 10 ** 9 and abs(c.numerator) < 10 ** 12):
        return c
    s = snap(c, 2000)
    if s is not c and s != c:
        return s
    a = abs(c)
    # position of leading digit
    k = len(str(a.numerator)) - len(str(a.denominator))
    q = digits - k
    scale = Fraction(10) ** q
    return Fraction(round(c * scale)) / scale


class Atom(object):
    __slots__ = ("id", "kind", "name", "data", "z", "sign", "lo", "hi", "fn", "integer")

    def __init__(self, id, kind, name, data=None, sign=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.data = data
        self.z = None
        self.sign = sign       # '+' : >0, '0+' : >=0, '-' : <0, None unknown   (static facts only)
        self.lo = self.hi = None
        self.fn = None
        self.integer = False

    def __repr__(self):
        return self.name


class Session(object):
    """atoms are shared over all paths of one harness"""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.engine = None

    def atom(self, key, kind, name, data=None, sign=None):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, data, sign)
            self.atoms.append(a)
            self.by_key[key] = a
        return a


S = Session()


def reset_session():
    S.atoms = []
    S.by_key = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n == 0:
            d.pop(i, None)
        else:
            d[i] = snap(n)
    return tuple(sorted(d.items()))


def mono_pow(a, p):
    return tuple((i, snap(e * p)) for i, e in a)


class Sym(object):
    __slots__ = ("t",)

    def __init__(self, terms):
        self.t = terms

    # ---- construction -------------------------------------------------------------------------------------------
    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({ONE: c} if c else {})

    @staticmethod
    def of_atom(a, e=Fraction(1)):
        return Sym({((a.id, Fraction(e)),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def value(self):
        return self.t.get(ONE, Fraction(0))

    def key(self):
        return tuple(sorted(self.t.items()))

    def __hash__(self):
        return 7

    # ---- arithmetic ---------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            elif abs(n) <= Fraction(1, 10 ** 15) * abs(c) and abs(c) != 0 and n != c:
                d.pop(m, None)      # residue of double rounding of an exactly cancelling coefficient
            else:
                d[m] = n
        return Sym(d)
    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self / o).floor()

    def __pow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(o, self)

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.value()))
        s = sign_of(self)
        if s in ("+", "0+"):
            return self
        if s in ("-", "0-"):
            return -self
        return self if bool(self >= 0) else -self

    # ---- comparisons --------------------------------------------------------------------------------------------
    def __lt__(self, o):
        return cmp_(o, self, ">")

    def __le__(self, o):
        return cmp_(o, self, ">=")

    def __gt__(self, o):
        return cmp_(self, o, ">")

    def __ge__(self, o):
        return cmp_(self, o, ">=")

    def __eq__(self, o):
        return cmp_(self, o, "==")

    def __ne__(self, o):
        r = cmp_(self, o, "==")
        return r if r is NotImplemented else ~r

    def __bool__(self):
        return bool(~(self == 0))

    # ---- conversions --------------------------------------------------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.value())
        raise EngineGap("float() of a symbolic value at a C boundary")

    def __int__(self):
        if self.is_const():
            return int(self.value())
        return S.engine.concretize_int(self)

    def __index__(self):
        if self.is_const() and self.value().denominator == 1:
            return int(self.value())
        return S.engine.concretize_int(self, exact=True)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return S.engine.concretize_int(self)

    def __round__(self, n=None):
        if n is None:
            return self.rint()
        return self.round(n)

    def round(self, decimals=0, out=None):
        return round_term(self, int(decimals))

    # ---- numpy element methods ----------------------------------------------------------------------------------
    def sqrt(self):
        return power(self, Sym.const(Fraction(1, 2)))

    def cbrt(self):
        if bool(self >= 0):
            return power(self, Sym.const(Fraction(1, 3)))
        return -power(-self, Sym.const(Fraction(1, 3)))

    def square(self):
        return self * self

    def exp(self):
        return exp10(self * Sym.const(KLOG))

    def exp2(self):
        return power(Sym.const(2), self)

    def log(self):
        return log10(self) * Sym.const(LN10)

    def log10(self):
        return log10(self)

    def log2(self):
        return log10(self) / Sym.const(frac(math.log10(2)))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def reciprocal(self):
        return 1 / self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sin(self):
        return trig("sin", self)

    def cos(self):
        return trig("cos", self)

    def tan(self):
        return trig("sin", self) / trig("cos", self)

    def hypot(self, o):
        o = lift(o)
        return (self * self + o * o).sqrt()

    def arctan2(self, o):
        return fn_atom("arctan2", (self, lift(o)), lo=-math.pi, hi=math.pi)

    def arctan(self):
        return unary("arctan", self)

    def arcsin(self):
        return unary("arcsin", self)

    def arccos(self):
        return unary("arccos", self)

    def arctanh(self):
        return ((1 + self) / (1 - self)).log() / 2

    def arcsinh(self):
        return (self + (self * self + 1).sqrt()).log()

    def arccosh(self):
        return (self + (self * self - 1).sqrt()).log()

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def tanh(self):
        e = (2 * self).exp()
        return (e - 1) / (e + 1)

    def rint(self):
        return round_term(self, 0)

    def floor(self):
        return floor_term(self)

    def ceil(self):
        return -floor_term(-self)

    def trunc(self):
        return self.floor() if bool(self >= 0) else self.ceil()

    def deg2rad(self):
        return self * frac(math.pi / 180)
    radians = deg2rad

    def rad2deg(self):
        return self * frac(180 / math.pi)
    degrees = rad2deg

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def __repr__(self):
        return to_str(self)
    __str__ = __repr__

    def __format__(self, spec):
        return to_str(self)


def to_str(p, limit=12):
    out = []
    for m, c in list(p.t.items())[:limit]:
        f = "*".join("%s%s" % (S.atoms[i].name, "" if e == 1 else "^%s" % (e if e.denominator < 1000 else round(float(e), 6)))
                     for i, e in m)
        cs = ("%.9g" % float(c))
        out.append(cs if not f else (f if c == 1 else cs + "*" + f))
    if len(p.t) > limit:
        out.append("...")
    return "<" + (" + ".join(out) or "0") + ">"


import numpy as _np


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return Sym.const(1 if bool(o) else 0)
    if isinstance(o, (int, float, Fraction, _np.floating, _np.integer, _np.bool_)):
        return Sym.const(o)
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return NotImplemented


def normal_sum(p):
    """p (>= 2 terms) = c * mono * S with S a 'sum' atom; returns (c, mono, atom)"""
    items = list(p.t.items())
    common = dict(items[0][0])
    for m, _ in items[1:]:
        d = dict(m)
        for i in set(common) | set(d):
            a, b = common.get(i, Fraction(0)), d.get(i, Fraction(0))
            n = min(a, b)
            if n == 0:
                common.pop(i, None)
            else:
                common[i] = n
    common = tuple(sorted(common.items()))
    inv = mono_pow(common, -1)
    red = {mono_mul(m, inv): c for m, c in items}
    sq = [m for m in red if all(e.denominator == 1 and e.numerator % 2 == 0 for _, e in m)]
    # prefer a leading coefficient whose square root is exact
    lead = min(sq or red)
    c0 = red[lead]
    red = {m: round_sig(c / c0) for m, c in red.items()}
    key = ("sum", tuple(sorted(red.items())))
    flipped = S.by_key.get(("neg",) + key)
    if flipped is not None:
        return -c0, common, flipped
    a = S.by_key.get(key)
    if a is None:
        body = Sym(red)
        if (static_sign(body, False) or sos_sign(body)) in ("-", "0-"):
            # orient the named sum so that it is non-negative
            red = {m: -c for m, c in red.items()}
            body = Sym(red)
            k2 = ("sum", tuple(sorted(red.items())))
            a = S.by_key.get(k2) or S.atom(k2, "sum", "S%d" % len(S.atoms), body)
            a.sign = static_sign(body, False) or sos_sign(body)
            S.by_key[("neg",) + key] = a
            return -c0, common, a
        a = S.atom(key, "sum", "S%d" % len(S.atoms), body)
        # the atom outlives the path: only path-independent signs may be stored with it
        a.sign = static_sign(body, False) or sos_sign(body)
    if a.sign not in ("+", "-") and a.id not in S.engine.path_sign:
        st = static_sign(a.data)
        if st in ("+", "-"):
            S.engine.path_sign[a.id] = st
    return c0, common, a


def sos_sign(p):
    """'0+' / '0-' for quadratic forms (in square roots of monomials) that are semidefinite"""
    n = len(p.t)
    if n < 2 or n > 60:
        return None
    basis = []
    for m, c in p.t.items():
        if all(e.denominator == 1 and e.numerator % 2 == 0 for _, e in m):
            basis.append(mono_pow(m, Fraction(1, 2)))
    if not basis or len(basis) > 14:
        return None
    k = len(basis)
    pos = {}
    for i in range(k):
        for j in range(i, k):
            pos.setdefault(mono_mul(basis[i], basis[j]), []).append((i, j))
    G = [[Fraction(0)] * k for _ in range(k)]
    for m, c in p.t.items():
        w = pos.get(m)
        if not w:
            return None
        i, j = min(w, key=lambda t: t[0] != t[1])
        if i == j:
            G[i][i] += c
        else:
            G[i][j] += c / 2
            G[j][i] += c / 2
    s = 1 if G[0][0] > 0 else -1
    G = [[s * v for v in r] for r in G]
    # symmetric elimination; coefficients are rounded, hence the tolerance
    for i in range(k):
        d = G[i][i]
        if d < 0:
            return None
        row = [G[i][j] for j in range(i + 1, k)]
        if d == 0:
            if any(row):
                return None
            continue
        for j in range(i + 1, k):
            f = G[j][i] / d
            if f:
                for l in range(i + 1, k):
                    G[j][l] -= f * G[i][l]
    return "0+" if s > 0 else "0-"


def relax(f, tol=Fraction(1, 10 ** 9)):
    """the formula with every inequality widened by a relative tolerance (terms of known sign only)"""
    if f.op in (">", ">="):
        p = f.a
        for m, c in f.a.t.items():
            s = static_sign(Sym({m: Fraction(1)}))
            if s in ("+", "0+"):
                p = p + Sym({m: abs(c) * tol})
            elif s in ("-", "0-"):
                p = p + Sym({m: -abs(c) * tol})
        return SymBool(f.op, p)
    if f.op == "and":
        return relax(f.a, tol) & relax(f.b, tol)
    if f.op == "or":
        return relax(f.a, tol) | relax(f.b, tol)
    if f.op == "not" and f.a.op == "and":
        return relax(~f.a.a, tol) | relax(~f.a.b, tol)
    if f.op == "not" and f.a.op == "or":
        return relax(~f.a.a, tol) & relax(~f.a.b, tol)
    return f


def static_sign(p, path=True):
    """sign derivable from coefficient signs and static atom signs"""
    if not p.t:
        return "0"
    strict = False
    sgn = None
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        st = True
        for i, e in m:
            a = S.atoms[i].sign
            if path and (a is None or a == "0+"):
                a = S.engine.path_sign.get(i, a)
            if a == "+":
                continue
            if a == "0+":
                st = st and e < 0       # a divisor is not zero
                continue
            if a == "-" and e.denominator == 1:
                if e.numerator % 2:
                    s = -s
                continue
            if e.denominator == 1 and e.numerator % 2 == 0:
                st = st and e < 0
                continue
            return None
        if sgn is None:
            sgn = s
        elif sgn != s:
            return None
        strict = strict or st
    return {(1, True): "+", (1, False): "0+", (-1, True): "-", (-1, False): "0-"}[(sgn, strict)]


def sign_of(p):
    """static sign, or one provable from the current path condition"""
    s = static_sign(p)
    if s is not None:
        return s
    return S.engine.dynamic_sign(p)


def mul(p, q):
    if len(p.t) > 1 and len(q.t) >= 1:
        p, q = q, p
    if len(q.t) > 1 and len(p.t) >= 1:
        # cancel (..)*S^-k with a factor equal to S
        r = try_cancel(p, q)
        if r is not None:
            return r
    if len(p.t) * len(q.t) > 4000:
        raise EngineGap("term too large")
    d = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            n = d.get(m, 0) + c1 * c2
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
    return expand(Sym(d))


def has_neg(p, aid):
    for m in p.t:
        for i, e in m:
            if i == aid and e < 0:
                return True
    return False


def find_sum(p):
    """normal_sum without creating the atom"""
    if len(p.t) < 2:
        return None
    n = len(S.atoms)
    c, m, a = normal_sum(p)
    return c, m, a


def try_cancel(p, q):
    """q multi-term; if p contains S_q ** negative, multiply symbolically with the atom"""
    c, m, a = normal_sum(q)
    if has_neg(p, a.id):
        d = {}
        f = mono_mul(m, ((a.id, Fraction(1)),))
        for m1, c1 in p.t.items():
            k = mono_mul(m1, f)
            n = d.get(k, 0) + c1 * c
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = n
        return expand(Sym(d))
    if len(p.t) > 1:
        c2, m2, a2 = normal_sum(p)
        if has_neg(q, a2.id):
            return try_cancel_mono(q, c2, m2, a2)
    return None


def try_cancel_mono(q, c2, m2, a2):
    d = {}
    f = mono_mul(m2, ((a2.id, Fraction(1)),))
    for m1, c1 in q.t.items():
        k = mono_mul(m1, f)
        n = d.get(k, 0) + c1 * c2
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return expand(Sym(d))


def expand(p):
    """replace positive integer powers of sum atoms by their bodies"""
    for m in p.t:
        for i, e in m:
            if e >= 1 and S.atoms[i].kind == "sum":
                break
        else:
            continue
        break
    else:
        return p
    out = Sym({})
    for m, c in p.t.items():
        rest = []
        fac = []
        for i, e in m:
            if e >= 1 and S.atoms[i].kind == "sum" and e <= 6 and len(S.atoms[i].data.t) <= 12:
                k = int(e)
                fr = e - k
                fac.append((S.atoms[i].data, k))
                if fr:
                    rest.append((i, fr))
            else:
                rest.append((i, e))
        t = Sym({tuple(sorted(rest)): c})
        for body, k in fac:
            for _ in range(k):
                d = {}
                for m1, c1 in t.t.items():
                    for m2, c2 in body.t.items():
                        mm = mono_mul(m1, m2)
                        n = d.get(mm, 0) + c1 * c2
                        if n == 0:
                            d.pop(mm, None)
                        else:
                            d[mm] = n
                t = Sym(d)
        t = expand(t) if fac else t
        out = out + t
    return out


def monomialize(p):
    """p as a single-term Sym (naming a multi-term p as a sum atom)"""
    if len(p.t) <= 1:
        return p
    c, m, a = normal_sum(p)
    return Sym({mono_mul(m, ((a.id, Fraction(1)),)): c})


def div(p, q):
    if not q.t:
        if not p.t:
            raise NanPath("0/0")
        raise ZeroDivisionError("division by zero")
    if q.is_const():
        v = q.value()
        return Sym({m: c / v for m, c in p.t.items()})
    s = static_sign(q)
    if s not in ("+", "-"):
        if bool(q == 0):
            raise ZeroDivisionError("division by zero")
    if p.t == q.t:
        return Sym.const(1)
    qm = monomialize(q)
    (m, c), = qm.t.items()
    inv = Sym({mono_pow(m, -1): 1 / c})
    if len(p.t) > 1:
        cp, mp, ap = normal_sum(p)
        if any(i == ap.id for i, _ in m):
            return expand(Sym({mono_mul(mono_mul(mp, ((ap.id, Fraction(1)),)), mono_pow(m, -1)): cp / c}))
    return mul(inv, p)


def pos_mono(m, what):
    """rewrite monomial so that all atoms with unknown sign are replaced by provably non-negative ones.
    returns (sign, mono)"""
    sgn = 1
    out = {}
    for i, e in m:
        a = S.atoms[i]
        st = S.engine.path_sign.get(i, a.sign)
        base = Sym.of_atom(a)
        if st not in ("+", "0+", "-"):
            st = S.engine.dynamic_sign(base)
        if st not in ("+", "0+", "-", "0-"):
            st = "0+" if bool(base >= 0) else "-"
        if st in ("+", "0+"):
            out[i] = out.get(i, 0) + e
        else:
            if e.denominator != 1:
                raise NanPath(what)
            b = S.atom(("sum", ((((i, Fraction(1)),), Fraction(-1)),)), "sum", "neg(%s)" % a.name, -base)
            if st == "-":
                S.engine.path_sign[b.id] = "+"
            if e.numerator % 2:
                sgn = -sgn
            out[b.id] = out.get(b.id, 0) + e
    return sgn, tuple(sorted(out.items()))


def power(p, q):
    if q.is_const():
        e = snap(q.value())
        if p.is_const():
            b = p.value()
            if e.denominator == 1 and abs(e) <= 64:
                if b == 0 and e < 0:
                    raise ZeroDivisionError("0 ** negative")
                return Sym.const(b ** int(e))
            if b < 0:
                raise NanPath("negative base, fractional power")
            return Sym.const(float(b) ** float(e)) if b else Sym.const(0)
        if e == 0:
            return Sym.const(1)
        if e.denominator == 1:
            k = int(e)
            if 0 < k <= 8 and len(p.t) ** k <= 400:
                r = p
                for _ in range(k - 1):
                    r = mul(r, p)
                return r
            if k < 0:
                s = static_sign(p)
                if s not in ("+", "-"):
                    if bool(p == 0):
                        raise ZeroDivisionError("0 ** negative")
            pm = monomialize(p)
            (m, c), = pm.t.items()
            return expand(Sym({mono_pow(m, e): frac_pow(c, e)}))
        pm = monomialize(p)
        if not pm.t:
            return Sym.const(0)
        (m, c), = pm.t.items()
        s1, m2 = pos_mono(m, "fractional power of a negative number")
        if s1 * c < 0:
            # negative base unless zero
            if bool(p == 0):
                if e < 0:
                    raise ZeroDivisionError("0 ** negative")
                return Sym.const(0)
            raise NanPath("fractional power of a negative number")
        if e < 0:
            if static_sign(p) != "+" and bool(p == 0):
                raise ZeroDivisionError("0 ** negative")
        return expand(Sym({mono_pow(m2, e): frac_pow(abs(c), e)}))
    # symbolic exponent
    if p.is_const():
        b = p.value()
        if b == 1:
            return Sym.const(1)
        if b == 10:
            return exp10(q)
        if b <= 0:
            raise EngineGap("non-positive constant base with symbolic exponent")
        return exp10(q * Sym.const(frac(math.log10(b))))
    return exp10(q * log10(p))


def frac_pow(c, e):
    if e.denominator == 1:
        return c ** int(e)
    if c == 1:
        return Fraction(1)
    if e.denominator == 2 and c > 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** e.numerator
    n = round(float(c.numerator) ** (1 / e.denominator)) if c.numerator < 10 ** 15 else None
    d = round(float(c.denominator) ** (1 / e.denominator)) if c.denominator < 10 ** 15 else None
    if n is not None and d is not None and e.denominator <= 12 and n ** e.denominator == c.numerator and d ** e.denominator == c.denominator:
        return Fraction(n, d) ** e.numerator
    import mpmath
    mpmath.mp.dps = 30
    v = mpmath.power(mpmath.mpf(c.numerator) / c.denominator, mpmath.mpf(e.numerator) / e.denominator)
    return Fraction(mpmath.nstr(v, 20))


def mlog10(c):
    import mpmath
    mpmath.mp.dps = 30
    v = mpmath.log10(mpmath.mpf(c.numerator) / c.denominator)
    return Fraction(mpmath.nstr(v, 20)) if v != 0 else Fraction(0)


def m10(c):
    if c.denominator == 1 and abs(c) < 300:
        return Fraction(10) ** int(c)
    import mpmath
    mpmath.mp.dps = 30
    v = mpmath.power(10, mpmath.mpf(c.numerator) / c.denominator)
    return Fraction(mpmath.nstr(v, 20))


def log10(p):
    if p.is_const():
        v = p.value()
        if v <= 0:
            raise NanPath("log of non-positive constant")
        return Sym.const(mlog10(v))
    s = static_sign(p)
    if s != "+":
        if not bool(p > 0):
            raise NanPath("log of a non-positive number")
    pm = monomialize(p)
    (m, c), = pm.t.items()
    s1, m = pos_mono(m, "log")
    out = Sym.const(mlog10(abs(c)))
    for i, e in m:
        a = S.atoms[i]
        if a.kind == "e10":
            out = out + Sym({a.data: e})
        else:
            l = S.atom(("log", i), "log", "log10(%s)" % a.name, i)
            if a.kind == "sum" and len(a.data.t) <= 4:
                log_sum_axioms(l, a)
            out = out + Sym({((l.id, Fraction(1)),): e})
    return out


def log_sum_axioms(l, a):
    """log of a sum of positive terms is at least the log of each (terms made of exponentials only)"""
    terms = list(a.data.t.items())
    if any(c < 0 or static_sign(Sym({m: c})) not in ("+", "0+") for m, c in terms):
        return
    for m, c in terms:
        if c == 1 and m and all(S.atoms[i].kind == "e10" for i, _ in m):
            d = Sym.of_atom(l)
            for i, e in m:
                d = d - Sym({S.atoms[i].data: e})
            S.engine.axiom(("logsum", l.id, m), lambda d=d: SymBool(">=", d), attach=(l.id,))


def exp10(p):
    if p.is_const():
        return Sym.const(m10(p.value()))
    out = Sym.const(1)
    for m, c in p.t.items():
        if m == ONE:
            out = mul(out, Sym.const(m10(c)))
            continue
        c = snap(c)
        if len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].kind == "log":
            i = S.atoms[m[0][0]].data
            out = mul(out, Sym({((i, c),): Fraction(1)}))
            continue
        a = S.atom(("e10", m), "e10", "E10[%s]" % to_str(Sym({m: Fraction(1)})), m, "+")
        out = mul(out, Sym({((a.id, c),): Fraction(1)}))
    return expand(out)


def round_args(p):
    return Sym({m: round_sig(c) for m, c in p.t.items()})


def fn_atom(name, args, lo=None, hi=None, lo_strict=False, hi_strict=False, fn=None, sign=None, integer=False):
    args = tuple(round_args(a) for a in args)
    key = ("fn", name, tuple(a.key() for a in args))
    new = key not in S.by_key
    a = S.atom(key, "fn", "%s(%s)" % (name, ",".join(to_str(x)[1:-1] for x in args)), (name, args), sign)
    if new:
        a.lo = None if lo is None else (frac(lo), lo_strict)
        a.hi = None if hi is None else (frac(hi), hi_strict)
        a.fn = fn
        a.integer = integer
        if sign is None and a.lo is not None:
            if a.lo[0] > 0 or (a.lo[0] == 0 and lo_strict):
                a.sign = "+"
            elif a.lo[0] == 0:
                a.sign = "0+"
        if sign is None and a.hi is not None and (a.hi[0] < 0 or (a.hi[0] == 0 and hi_strict)):
            a.sign = "-"
    return Sym.of_atom(a)


def unary(name, p):
    if p.is_const():
        return Sym.const(getattr(math, {"arctan": "atan", "arcsin": "asin", "arccos": "acos"}.get(name, name))(float(p.value())))
    rng = {"arctan": (-math.pi / 2, math.pi / 2), "arcsin": (-math.pi / 2, math.pi / 2), "arccos": (0, math.pi)}.get(name, (None, None))
    sg = static_sign(p, path=False) if name == "arctan" else None
    strict = name == "arctan"
    if sg in ("+", "0+"):
        rng = (0, rng[1])
    elif sg in ("-", "0-"):
        rng = (rng[0], 0)
    r = fn_atom(name, (p,), lo=rng[0], hi=rng[1], lo_strict=strict and sg != "0+", hi_strict=strict and sg != "0-")
    if name == "arctan":
        def facts():
            f = (cmp_(p, Sym.const(0), "<") | cmp_(p, r, ">=")) & (cmp_(p, Sym.const(0), ">") | cmp_(r, p, ">="))
            for a in (0.1, 0.5, 1.0, 3.0, 20.0):
                a = frac(a)
                v, e = frac(math.atan(float(a))), frac(1e-12)
                f = f & (cmp_(Sym.const(a), p, ">") | cmp_(r, Sym.const(v - e), ">=")) & (cmp_(p, Sym.const(a), ">") | cmp_(Sym.const(v + e), r, ">="))
            return f
        S.engine.axiom(("arctan", p.key()), facts)
    return r


def trig(name, p):
    if p.is_const():
        return Sym.const(getattr(math, name)(float(p.value())))
    # constant offsets that are multiples of pi/2 are not folded; odd/even normalisation of the leading sign
    lead = p.t[min(p.t)]
    if lead < 0:
        q = trig(name, -p)
        return q if name == "cos" else -q
    c = fn_atom("cos", (p,), lo=-1, hi=1)
    s = fn_atom("sin", (p,), lo=-1, hi=1)
    S.engine.axiom(("trig", p.key()), lambda: cmp_(s * s + c * c, Sym.const(1), "=="))
    return c if name == "cos" else s


def round_term(p, n):
    if p.is_const():
        return Sym.const(round(float(p.value()), n))
    q = p * Fraction(10) ** n
    r = fn_atom("round0", (q,), fn=lambda x: round(x), integer=True)
    h = Fraction(1, 2)
    S.engine.axiom(("round", q.key()), lambda: (cmp_(r, q - h, ">=") & cmp_(q + h, r, ">=")))
    return r / (Fraction(10) ** n)


def floor_term(p):
    if p.is_const():
        return Sym.const(math.floor(p.value()))
    r = fn_atom("floor", (p,), fn=math.floor, integer=True)
    S.engine.axiom(("floor", p.key()), lambda: (cmp_(p, r, ">=") & cmp_(r + 1, p, ">")))
    return r


# ---------------------------------------------------------------------------------------------------------------------
class SymBool(object):
    """boolean formula over comparisons; truth value forks the execution"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op = op      # '>', '>=', '==' (a: Sym compared with 0), 'and', 'or', 'not', 'const'
        self.a = a
        self.b = b

    def __invert__(self):
        if self.op == "not":
            return self.a
        if self.op == "const":
            return SymBool("const", not self.a)
        if self.op == ">":
            return cmp_(Sym.const(0), self.a, ">=")
        if self.op == ">=":
            return cmp_(Sym.const(0), self.a, ">")
        return SymBool("not", self)

    def __and__(self, o):
        o = lift_bool(o)
        if self.op == "const":
            return o if self.a else self
        if o.op == "const":
            return self if o.a else o
        return SymBool("and", self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = lift_bool(o)
        if self.op == "const":
            return self if self.a else o
        if o.op == "const":
            return o if o.a else self
        return SymBool("or", self, o)
    __ror__ = __or__

    def logical_not(self):
        return ~self

    def __bool__(self):
        if self.op == "const":
            return self.a
        return S.engine.decide(self)

    # arithmetic on truth values (sum of masks etc.)
    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return 11

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        if self.op in (">", ">=", "=="):
            return "%r %s 0" % (self.a, self.op)
        return "(%s %r %r)" % (self.op, self.a, self.b)


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def lift_bool(o):
    if isinstance(o, SymBool):
        return o
    return TRUE if bool(o) else FALSE


def cmp_(a, b, op):
    if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
        if math.isnan(b) or op == "==":
            return FALSE
        return TRUE if b < 0 else FALSE
    if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
        if math.isnan(a) or op == "==":
            return FALSE
        return TRUE if a > 0 else FALSE
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    d = a - b
    if d.is_const():
        v = d.value()
        return TRUE if (v > 0 if op == ">" else v >= 0 if op == ">=" else v == 0) else FALSE
    s = static_sign(d)
    if s == "+":
        return FALSE if op == "==" else TRUE
    if s == "-":
        return FALSE
    if s == "0+" and op == ">=":
        return TRUE
    if s == "0-" and op == ">":
        return FALSE
    if len(d.t) == 2:
        r = two_mono(d)
        if r is not None:
            d2 = r
            if d2.is_const():
                v = d2.value()
                return TRUE if (v > 0 if op == ">" else v >= 0 if op == ">=" else v == 0) else FALSE
            d = d2
            s = static_sign(d)
            if s == "+":
                return FALSE if op == "==" else TRUE
            if s == "-":
                return FALSE
            if s == "0+" and op == ">=":
                return TRUE
            if s == "0-" and op == ">":
                return FALSE
    return SymBool(op, d)


def two_mono(d):
    """c1*m1 - c2*m2 <> 0 over positive atoms: raise to a power that makes the exponent of a sum atom integral"""
    (m1, c1), (m2, c2) = d.t.items()
    if (c1 > 0) == (c2 > 0):
        return None
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    r = mono_mul(m1, mono_pow(m2, -1))
    e = None
    for i, x in r:
        a = S.atoms[i]
        if S.engine.path_sign.get(i, a.sign) != "+":
            return None
        if a.kind == "sum":
            if e is None or len(a.data.t) > len(S.atoms[e[0]].data.t):
                e = (i, x)
    if e is None:
        if c1 == -c2 and r and all(S.atoms[i].kind == "e10" for i, _ in r) and any(x.denominator != 1 or len(S.atoms[i].data) > 1 for i, x in r):
            d = Sym({})
            for i, x in r:
                d = d + Sym({S.atoms[i].data: x})
            return d
        return None
    q = 1 / abs(e[1])
    r = mono_pow(r, q)
    k = frac_pow(-c2 / c1, q)
    pos = tuple((i, x) for i, x in r if x > 0)
    neg = tuple((i, -x) for i, x in r if x < 0)
    return expand(Sym({pos: Fraction(1)})) - expand(Sym({neg: k}))
