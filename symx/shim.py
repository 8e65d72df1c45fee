"""Stand-ins for numpy, scipy, math and a few builtins that accept symbolic terms (symbolic mode only).

Calls whose arguments hold no symbolic value are passed to the real library.
"""
import sys, types, math, builtins, importlib, itertools
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import Sym, SymBool, EngineGap, NanPath, S

np.seterr(all="ignore")
RNG = [None]         # current Rng
PATCH = {}           # dotted name -> replacement (per harness)


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def demote(x):
    """object array without symbolic content -> ordinary array"""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        if any(v is None for v in x.flat):
            return x
        try:
            if all(isinstance(v, (bool, np.bool_)) for v in x.flat) and x.size:
                return x.astype(bool)
            if all(isinstance(v, (int, np.integer)) for v in x.flat) and x.size:
                return x.astype(int)
            return x.astype(float)
        except (TypeError, ValueError):
            return x
    if isinstance(x, Sym) and x.is_const():
        return float(x.value())
    return x


def clean(x):
    if isinstance(x, np.ndarray):
        return demote(x)
    if isinstance(x, Sym):
        return demote(x)
    if isinstance(x, tuple):
        return tuple(clean(v) for v in x)
    if isinstance(x, list):
        return [clean(v) for v in x]
    if x is FloatShadow:
        return float
    if x is IntShadow:
        return int
    return x


def oarr(x):
    """object array view of anything array-like"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        a = np.array(x, dtype=object)
        return a
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def out(a):
    """0-d object arrays become scalars"""
    if isinstance(a, np.ndarray) and a.ndim == 0 and a.dtype == object:
        return a.item()
    return a


def mapn(f, *xs):
    arrs = [oarr(x) for x in xs]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    sh = b.shape if b is not None else arrs[0].shape
    arrs = [np.broadcast_to(a, sh) for a in arrs]
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        r[i] = f(*[a[i] for a in arrs])
    return out(r)


# ---- builtins ---------------------------------------------------------------------------------------------------------
class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return T.lift(x)
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShadow(metaclass=_FM):
    fromhex = float.fromhex


class _F64(_FM):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)

    def __call__(cls, x=0.0):
        if has_sym(x):
            return x if isinstance(x, Sym) else T.lift(x) if isinstance(x, SymBool) else out(oarr(x)) if np.size(x) != 1 else oarr(x).reshape(-1)[0]
        return np.float64(clean(x))

    def __eq__(cls, o):
        return o is cls or o is np.float64

    def __hash__(cls):
        return hash(np.float64)


class Float64Shadow(metaclass=_F64):
    pass


class _IM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShadow(metaclass=_IM):
    pass


def _isinstance(x, c):
    if isinstance(c, tuple):
        return any(_isinstance(x, k) for k in c)
    if isinstance(x, Sym) and c in (np.floating, np.number, np.float64, complex):
        return c is not complex
    return builtins.isinstance(x, c)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level:
        return m
    if fromlist:
        p = PROXIES.get(name)
        if p is not None:
            return p
        parts = name.split(".")
        if parts[0] in ("numpy", "scipy"):
            # submodule imported through the package, e.g. from scipy import integrate
            for f in fromlist:
                if name + "." + f in PROXIES:
                    return Proxy(m, {g: PROXIES[name + "." + g] for g in fromlist if name + "." + g in PROXIES})
        return m
    top = name.split(".")[0]
    p = PROXIES.get(top)
    return p if p is not None else m


def make_builtins():
    d = dict(builtins.__dict__)
    d["__import__"] = _import
    d["float"] = FloatShadow
    d["int"] = IntShadow
    d["isinstance"] = _isinstance
    d["print"] = lambda *a, **k: None
    d["callable"] = builtins.callable
    return d


class Proxy(types.ModuleType):
    def __init__(self, real, over, wrap=True):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrap"] = wrap
        self.__dict__["_cache"] = {}

    def __getattr__(self, k):
        o = self._over
        if k in o:
            return o[k]
        c = self._cache
        if k in c:
            return c[k]
        v = getattr(self._real, k)
        if self._wrap and callable(v) and not isinstance(v, type):
            v = wrap(v, self._real.__name__ + "." + k)
        c[k] = v
        return v


def wrap(f, name):
    def g(*a, **k):
        a = tuple(clean(x) for x in a)
        k = {n: clean(v) for n, v in k.items()}
        return f(*a, **k)
    g.__name__ = getattr(f, "__name__", name)
    g.__wrapped__ = f
    return g


def guarded(f, name):
    """library routine that cannot take symbolic input"""
    def g(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            a = tuple(clean(x) for x in a)
            k = {n: clean(v) for n, v in k.items()}
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                raise EngineGap("%s of a symbolic value" % name)
        else:
            a = tuple(clean(x) for x in a)
            k = {n: clean(v) for n, v in k.items()}
        return f(*a, **k)
    g.__name__ = name
    return g


# ---- numpy ------------------------------------------------------------------------------------------------------------
NP = {}


def np_over(name):
    def deco(f):
        NP[name] = f
        return f
    return deco


def unary(name, real):
    def f(x, *a, **k):
        if not has_sym(x):
            return real(clean(x), *a, **k)
        where = k.pop("where", None)
        def one(v):
            if isinstance(v, SymBool):
                v = T.lift(v)
            return getattr(v, name)() if isinstance(v, Sym) else real(v)
        return mapn(one, x)
    f.__name__ = name
    return f


for _n in ["sqrt", "cbrt", "square", "exp", "exp2", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "arcsin", "arccos",
           "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "floor", "ceil", "rint", "trunc", "deg2rad", "rad2deg",
           "radians", "degrees", "reciprocal"]:
    NP[_n] = unary(_n, getattr(np, _n))
NP["asin"], NP["acos"], NP["atan"], NP["atanh"], NP["asinh"], NP["acosh"] = NP["arcsin"], NP["arccos"], NP["arctan"], NP["arctanh"], NP["arcsinh"], NP["arccosh"]


def _abs(x, *a, **k):
    if not has_sym(x):
        return np.absolute(clean(x))
    return mapn(abs, x)


NP["abs"] = NP["absolute"] = NP["fabs"] = _abs


def _sign(x):
    if not has_sym(x):
        return np.sign(clean(x))
    return mapn(lambda v: (1.0 if bool(v > 0) else (-1.0 if bool(v < 0) else 0.0)) if isinstance(v, Sym) else np.sign(v), x)


NP["sign"] = _sign


def _binary(name, op):
    real = getattr(np, name)

    def f(x, y, *a, **k):
        if not has_sym(x) and not has_sym(y):
            return real(clean(x), clean(y), *a, **k)
        return mapn(op, x, y)
    NP[name] = f
    return f


def _pmax(a, b):
    return a if bool(a >= b) else b


def _pmin(a, b):
    return a if bool(a <= b) else b


_binary("maximum", _pmax)
_binary("minimum", _pmin)
_binary("fmax", _pmax)
_binary("fmin", _pmin)
_binary("hypot", lambda a, b: T.lift(a).hypot(b))
_binary("arctan2", lambda a, b: T.lift(a).arctan2(b))
NP["atan2"] = NP["arctan2"]
_binary("power", lambda a, b: T.power(T.lift(a), T.lift(b)))
NP["pow"] = NP["float_power"] = NP["power"]
_binary("add", lambda a, b: a + b)
_binary("subtract", lambda a, b: a - b)
_binary("multiply", lambda a, b: a * b)
_binary("divide", lambda a, b: a / b)
NP["true_divide"] = NP["divide"]
_binary("mod", lambda a, b: a % b)
NP["remainder"] = NP["mod"]
_binary("floor_divide", lambda a, b: a // b)


def _cmp(name, op):
    real = getattr(np, name)

    def f(x, y, *a, **k):
        if not has_sym(x) and not has_sym(y):
            return real(clean(x), clean(y), *a, **k)
        r = mapn(lambda p, q: bool(op(p, q)), x, y)
        return r.astype(bool) if isinstance(r, np.ndarray) else np.bool_(r)
    NP[name] = f


_cmp("less", lambda a, b: a < b)
_cmp("less_equal", lambda a, b: a <= b)
_cmp("greater", lambda a, b: a > b)
_cmp("greater_equal", lambda a, b: a >= b)
_cmp("equal", lambda a, b: a == b)
_cmp("not_equal", lambda a, b: a != b)
_cmp("logical_and", lambda a, b: bool(a) and bool(b))
_cmp("logical_or", lambda a, b: bool(a) or bool(b))
_cmp("logical_xor", lambda a, b: bool(a) != bool(b))
_cmp("isclose", lambda a, b: _isclose(a, b))


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    d, s = a - b, abs(T.lift(b)) * rtol + atol
    return (d <= s) and (-d <= s)


def _isclose_np(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(clean(a), clean(b), rtol, atol, equal_nan)
    r = mapn(lambda p, q: bool(_isclose(p, q, rtol, atol)), a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


NP["isclose"] = _isclose_np
NP["allclose"] = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: bool(np.all(_isclose_np(a, b, rtol, atol)))


@np_over("logical_not")
def _(x):
    if not has_sym(x):
        return np.logical_not(clean(x))
    r = mapn(lambda v: not bool(v), x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def _pred(name, val):
    real = getattr(np, name)

    def f(x, *a, **k):
        if not has_sym(x):
            return real(clean(x))
        r = mapn(lambda v: val if is_sym(v) else bool(real(v)), x)
        return r.astype(bool) if isinstance(r, np.ndarray) else np.bool_(r)
    NP[name] = f


_pred("isnan", False)
_pred("isinf", False)
_pred("isfinite", True)
_pred("isreal", True)


def _dtype(d):
    if d is None or d is FloatShadow or d is float or d is np.float64 or d is Float64Shadow:
        return float
    if d is IntShadow:
        return int
    return d


def _array(x, dtype=None, copy=True, **k):
    if has_sym(x):
        if dtype is IntShadow or dtype is int:
            return oarr(mapn(lambda v: int(v), x)).astype(int)
        if dtype is bool:
            return oarr(mapn(lambda v: bool(v), x)).astype(bool)
        if isinstance(x, np.ndarray):
            r = x.copy() if copy else x
        else:
            r = np.array(x, dtype=object)
        nd = k.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r
    x = clean(x)
    if dtype is not None:
        k["dtype"] = _dtype(dtype)
    if isinstance(x, np.ndarray) and not copy and "dtype" not in k:
        return x
    return np.array(x, **k)


NP["array"] = _array
NP["asarray"] = lambda x, dtype=None, **k: (x if isinstance(x, np.ndarray) and dtype is None else _array(x, dtype, copy=False))
NP["asanyarray"] = NP["asarray"]
NP["ascontiguousarray"] = NP["asarray"]
NP["copy"] = lambda x, **k: _array(x)
NP["float64"] = lambda x=0.0: FloatShadow(x) if not isinstance(x, np.ndarray) or x.ndim == 0 else _array(x, float)


def _filled(shape, v, dtype):
    d = _dtype(dtype)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    else:
        shape = int(shape)
    if d is float:
        r = np.empty(shape, dtype=object)
        r.fill(v)
        return r
    return np.full(shape, v, dtype=d)


NP["zeros"] = lambda shape, dtype=None, **k: _filled(shape, 0.0, dtype)
NP["ones"] = lambda shape, dtype=None, **k: _filled(shape, 1.0, dtype)
NP["empty"] = lambda shape, dtype=None, **k: _filled(shape, 0.0, dtype)


def _full(shape, v, dtype=None, **k):
    if has_sym(v) or isinstance(v, float) or dtype in (float, FloatShadow):
        if np.ndim(v):
            r = _filled(shape, 0.0, float)
            r[...] = v
            return r
        return _filled(shape, v, float)
    return np.full(shape, v, **({"dtype": dtype} if dtype is not None else {}))


NP["full"] = _full


def _like(v):
    def f(x, *a, **k):
        dt = k.get("dtype")
        fv = a[0] if v is None else v
        x = np.asarray(x) if not isinstance(x, np.ndarray) else x
        if v is None and has_sym(fv):
            return _filled(x.shape, fv, float)
        if dt is not None:
            return _filled(x.shape, fv, dt)
        if x.dtype == object or x.dtype.kind == "f":
            return _filled(x.shape, float(fv), float)
        return np.full_like(x, fv)
    return f


NP["zeros_like"], NP["ones_like"], NP["empty_like"], NP["full_like"] = _like(0.0), _like(1.0), _like(0.0), _like(None)
NP["atleast_1d"] = lambda *xs: (lambda r: r[0] if len(r) == 1 else tuple(r))([(_array(x, copy=False) if np.ndim(x) else np.array([out(oarr(x))], dtype=object) if has_sym(x) else np.atleast_1d(clean(x))) for x in xs])


def _round(x, decimals=0, out=None):
    if not has_sym(x):
        return np.round(clean(x), decimals)
    return mapn(lambda v: T.round_term(v, int(decimals)) if isinstance(v, Sym) else np.round(v, decimals), x)


NP["float64"] = NP["float_"] = Float64Shadow
NP["round"] = NP["around"] = NP["round_"] = _round


def _linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    if not has_sym(start) and not has_sym(stop) and not has_sym(num):
        return np.linspace(clean(start), clean(stop), int(num), endpoint, retstep)
    n = int(num)
    d = (n - 1) if endpoint else n
    step = (stop - start) / d if d else 0.0
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = stop if (endpoint and i == n - 1 and n > 1) else start + step * i
    return (r, step) if retstep else r


NP["linspace"] = _linspace


def _logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    if not has_sym(start) and not has_sym(stop):
        return np.logspace(clean(start), clean(stop), int(num), endpoint, base)
    return mapn(lambda v: T.power(Sym.const(base), T.lift(v)), _linspace(start, stop, num, endpoint))


NP["logspace"] = _logspace


def _geomspace(start, stop, num=50, endpoint=True, **k):
    if not has_sym(start) and not has_sym(stop):
        return np.geomspace(clean(start), clean(stop), int(num), endpoint)
    a, b = T.lift(start), T.lift(stop)
    r = _linspace(0.0, 1.0, num, endpoint)
    return mapn(lambda v: a * T.power(b / a, T.lift(v)), r)


NP["geomspace"] = _geomspace


ARANGE = [0]


def _arange(*a, **k):
    if not has_sym(list(a)):
        return np.arange(*[clean(x) for x in a])
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else k.get("step", 1))
    # numpy computes the number of elements in floating point: the comparison with the end carries a rounding error
    r, v = [], start
    ARANGE[0] += 1
    eps = T.S.atom(("var", "fp$arange%d" % ARANGE[0]), "var", "fp$arange%d" % ARANGE[0])
    eps.lo, eps.hi = (Fraction(-1, 10 ** 13), False), (Fraction(1, 10 ** 13), False)
    stop = stop + Sym.of_atom(eps)
    while bool(v < stop):
        r.append(v)
        v = start + step * len(r)
        if len(r) > 400:
            raise EngineGap("arange too long")
    return np.array(r, dtype=object)


NP["arange"] = _arange


def _extreme(pick):
    def f(x, axis=None, **k):
        if not has_sym(x):
            return (np.max if pick is _pmax else np.min)(clean(x), axis=axis, **k)
        a = oarr(x)
        if axis is None:
            v = list(a.flat)
            if "initial" in k:
                v.append(k["initial"])
            if not v:
                raise ValueError("zero-size array to reduction operation")
            r = v[0]
            for w in v[1:]:
                r = pick(r, w)
            return r
        return np.apply_along_axis(lambda z: f(z), axis, a)
    return f


NP["max"] = NP["amax"] = NP["nanmax"] = _extreme(_pmax)
NP["min"] = NP["amin"] = NP["nanmin"] = _extreme(_pmin)


def _argext(better):
    def f(x, axis=None, **k):
        if not has_sym(x):
            return (np.argmax if better == ">" else np.argmin)(clean(x), axis=axis)
        a = oarr(x)
        if axis is not None and a.ndim > 1:
            return np.apply_along_axis(lambda z: f(z), axis, a)
        v = list(a.flat)
        j = 0
        for i in range(1, len(v)):
            if bool(v[i] > v[j]) if better == ">" else bool(v[i] < v[j]):
                j = i
        return j
    return f


NP["argmax"], NP["argmin"] = _argext(">"), _argext("<")


def _clip(x, a_min=None, a_max=None, *aa, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    if not has_sym(x) and not has_sym(a_min) and not has_sym(a_max):
        return np.clip(clean(x), clean(a_min), clean(a_max))

    def one(v, *lim):
        i = 0
        if a_min is not None:
            v = _pmax(v, lim[0])
            i = 1
        if a_max is not None:
            v = _pmin(v, lim[i])
        return v
    return mapn(one, x, *[l for l in (a_min, a_max) if l is not None])


NP["clip"] = _clip


def _red(name, f):
    real = getattr(np, name)

    def g(x, axis=None, *a, **k):
        if not has_sym(x):
            return real(clean(x), axis, *a, **k)
        arr = oarr(x)
        if axis is None:
            return f(list(arr.flat))
        if isinstance(axis, tuple):
            raise EngineGap("tuple axis")
        res = np.apply_along_axis(lambda z: np.array([f(list(z))], dtype=object), axis, arr)
        return np.squeeze(res, axis=axis)
    NP[name] = g


def _sum(v):
    r = 0
    for x in v:
        r = r + x
    return r


def _prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


def _median(v):
    v = _sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _sorted(v):
    r = []
    for x in v:
        i = len(r)
        while i > 0 and bool(x < r[i - 1]):
            i -= 1
        r.insert(i, x)
    return r


_red("sum", _sum)
_red("nansum", _sum)
_red("prod", _prod)
_red("mean", lambda v: _sum(v) / len(v))
_red("average", lambda v: _sum(v) / len(v))
_red("median", _median)
_red("std", lambda v: T.lift(_sum([(x - _sum(v) / len(v)) ** 2 for x in v]) / len(v)).sqrt())
_red("var", lambda v: _sum([(x - _sum(v) / len(v)) ** 2 for x in v]) / len(v))


def _bred(name, f):
    real = getattr(np, name)

    def g(x, *a, **k):
        if not has_sym(x):
            return real(clean(x), *a, **k)
        if a or k.get("axis") is not None:
            raise EngineGap("any/all with axis")
        return np.bool_(f(bool(v) for v in oarr(x).flat))
    NP[name] = g


_bred("any", any)
_bred("all", all)


@np_over("average")
def _(x, axis=None, weights=None, **k):
    if weights is None:
        return NP["mean"](x, axis)
    if not has_sym(x) and not has_sym(weights):
        return np.average(clean(x), axis, clean(weights))
    w = list(oarr(weights).flat)
    v = list(oarr(x).flat)
    return _sum([a * b for a, b in zip(v, w)]) / _sum(w)


@np_over("cumsum")
def _(x, axis=None, **k):
    if not has_sym(x):
        return np.cumsum(clean(x), axis)
    r, s = [], 0
    for v in oarr(x).flat:
        s = s + v
        r.append(s)
    return np.array(r, dtype=object)


@np_over("sort")
def _(x, axis=-1, **k):
    if not has_sym(x):
        return np.sort(clean(x), axis)
    return np.array(_sorted(list(oarr(x))), dtype=object)


@np_over("argsort")
def _(x, *a, **k):
    if not has_sym(x):
        return np.argsort(clean(x), *a, **k)
    v = list(oarr(x))
    r = []
    for j, x in enumerate(v):
        i = len(r)
        while i > 0 and bool(x < v[r[i - 1]]):
            i -= 1
        r.insert(i, j)
    return np.array(r, dtype=int)


@np_over("unique")
def _(x, return_index=False, return_inverse=False, return_counts=False, **k):
    if not has_sym(x):
        return np.unique(clean(x), return_index, return_inverse, return_counts)
    v = list(oarr(x).flat)
    order = list(NP["argsort"](v))
    vals, idx, cnt = [], [], []
    inv = [0] * len(v)
    for j in order:
        if vals and bool(v[j] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(v[j])
            idx.append(j)
            cnt.append(1)
        inv[j] = len(vals) - 1
    r = (np.array(vals, dtype=object),)
    if return_index:
        r += (np.array(idx),)
    if return_inverse:
        r += (np.array(inv),)
    if return_counts:
        r += (np.array(cnt),)
    return r[0] if len(r) == 1 else r


@np_over("searchsorted")
def _(a, v, side="left", **k):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(clean(a), clean(v), side)
    aa = list(oarr(a))

    def one(x):
        i = 0
        for y in aa:
            if (bool(y < x) if side == "left" else bool(y <= x)):
                i += 1
            else:
                break
        return i
    r = mapn(one, v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


@np_over("where")
def _(c, *ab):
    if has_sym(c):
        c = oarr(c)
        b = np.empty(c.shape, dtype=bool)
        for i in np.ndindex(*c.shape):
            b[i] = bool(c[i])
        c = b
    else:
        c = clean(c)
    if not ab:
        return np.where(c)
    if has_sym(ab[0]) or has_sym(ab[1]):
        return out(mapn(lambda t, x, y: x if t else y, np.asarray(c), *ab))
    return np.where(c, clean(ab[0]), clean(ab[1]))


@np_over("nonzero")
def _(c):
    return NP["where"](c)


@np_over("argwhere")
def _(c):
    return np.transpose(NP["where"](c))


@np_over("count_nonzero")
def _(c, *a, **k):
    return len(NP["where"](c)[0]) if not a and not k else np.count_nonzero(c, *a, **k)


@np_over("trapezoid")
def _trapz(y, x=None, dx=1.0, axis=-1):
    if not has_sym(y) and not has_sym(x) and not has_sym(dx):
        return np.trapezoid(clean(y), clean(x) if x is not None else None, dx, axis)
    if np.ndim(y) == 2:
        ya, xa = oarr(y), None if x is None else oarr(x)
        if axis in (0, -2):
            ya, xa = ya.T, xa if xa is None or xa.ndim == 1 else xa.T
        return np.array([_trapz(ya[i], None if xa is None else xa if xa.ndim == 1 else xa[i], dx) for i in range(len(ya))], dtype=object)
    if np.ndim(y) > 2:
        raise EngineGap("trapezoid over %d dimensions" % np.ndim(y))
    y = list(oarr(y))
    if x is None:
        return _sum([(a + b) / 2 * dx for a, b in zip(y[1:], y[:-1])])
    x = list(oarr(x))
    return _sum([(a + b) / 2 * (p - q) for a, b, p, q in zip(y[1:], y[:-1], x[1:], x[:-1])])


if hasattr(np, "trapz"):
    NP["trapz"] = _trapz


@np_over("interp")
def _(x, xp, fp, left=None, right=None, **k):
    if not has_sym(x) and not has_sym(xp) and not has_sym(fp):
        return np.interp(clean(x), clean(xp), clean(fp), left, right)
    xs, ys = list(oarr(xp)), list(oarr(fp))
    if len(xs) > 40:
        raise EngineGap("np.interp over a long table")

    def one(v):
        if bool(v < xs[0]):
            return ys[0] if left is None else left
        if bool(v > xs[-1]):
            return ys[-1] if right is None else right
        return piecewise(v, xs, ys)
    return mapn(one, x)


def piecewise(v, xs, ys):
    lo, hi = 0, len(xs) - 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if bool(v >= xs[m]):
            lo = m
        else:
            hi = m
    return ys[lo] + (ys[hi] - ys[lo]) * (v - xs[lo]) / (xs[hi] - xs[lo])


@np_over("dot")
def _(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.dot(clean(a), clean(b))
    return out(np.dot(oarr(a), oarr(b)))


@np_over("matmul")
def _(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.matmul(clean(a), clean(b))
    return np.dot(oarr(a), oarr(b))


@np_over("histogram")
def _(x, bins=10, range=None, weights=None, **k):
    if not has_sym(x) and not has_sym(bins) and not has_sym(weights):
        return np.histogram(clean(x), bins, range, weights=clean(weights) if weights is not None else None, **k)
    if isinstance(bins, int):
        if range is None:
            raise EngineGap("histogram with automatic range")
        bins = _linspace(range[0], range[1], bins + 1)
    e = list(oarr(bins))
    h = [0] * (len(e) - 1)
    w = [1] * np.size(x) if weights is None else list(oarr(weights).flat)
    for v, ww in zip(oarr(x).flat, w):
        for i in builtins.range(len(h)):
            last = i == len(h) - 1
            if bool(v >= e[i]) and (bool(v <= e[i + 1]) if last else bool(v < e[i + 1])):
                h[i] = h[i] + ww
                break
    return (np.array(h, dtype=object) if has_sym(h) else np.array(h)), np.array(e, dtype=object)


def _polyfit(x, y, deg, *a, **k):
    if not has_sym(x) and not has_sym(y):
        return np.polyfit(clean(x), clean(y), clean(deg), *[clean(v) for v in a], **clean(k))
    if int(deg) != 1 or a or k:
        raise EngineGap("np.polyfit of degree %s" % deg)
    x, y = [list(oarr(v).reshape(-1)) for v in (x, y)]
    n = len(x)
    xm, ym = sum_(x) / n, sum_(y) / n
    den = sum_([(u - xm) * (u - xm) for u in x])
    b = sum_([(u - xm) * (v - ym) for u, v in zip(x, y)]) / den
    return np.array([b, ym - b * xm], dtype=object)


def sum_(v):
    s = Sym({})
    for u in v:
        s = s + u
    return s


NP["polyfit"] = _polyfit

for _n in ["roots", "histogram2d", "gradient", "percentile", "quantile", "polyval", "corrcoef", "cov"]:
    NP[_n] = guarded(getattr(np, _n), "np." + _n)


def _np_gradient(y, *x, **k):
    if not has_sym(y) and not has_sym(list(x)):
        return np.gradient(clean(y), *[clean(v) for v in x], **k)
    if k or len(x) > 1 or np.ndim(y) != 1 or (x and np.ndim(x[0]) > 1) or len(y) < 2:
        raise EngineGap("np.gradient of symbolic values")
    n = len(y)
    if not x or np.ndim(x[0]) == 0:
        d = [x[0] if x else 1.0] * (n - 1)
    else:
        d = [x[0][i + 1] - x[0][i] for i in range(n - 1)]
    out = np.empty(n, dtype=object)
    out[0], out[-1] = (y[1] - y[0]) / d[0], (y[-1] - y[-2]) / d[-1]
    for i in range(1, n - 1):
        a, b = d[i - 1], d[i]
        if not has_sym([a, b]):
            a, b = float(a), float(b)
            out[i] = y[i + 1] * (a / (b * (a + b))) + y[i] * ((b - a) / (a * b)) - y[i - 1] * (b / (a * (a + b)))
            continue
        out[i] = (a * a * y[i + 1] + (b * b - a * a) * y[i] - b * b * y[i - 1]) / (a * b * (a + b))
    return out


NP["gradient"] = _np_gradient


def _norm(x, ord=None, axis=None, **k):
    if not has_sym(x):
        return np.linalg.norm(clean(x), ord, axis)
    a = oarr(x)
    if ord not in (None, 2):
        raise EngineGap("norm order")
    if axis is None:
        return _square_sum_root(_sum([v * v for v in a.flat]))
    return mapn(_square_sum_root, NP["sum"](a * a, axis=axis))


def _square_sum_root(r):
    """root of a sum of squares, which is not negative"""
    r = T.lift(r)
    if len(r.t) > 1:
        c, m, a = T.normal_sum(r)
        if not m and c > 0 and T.S.engine.path_sign.get(a.id, a.sign) not in ("+", "0+"):
            T.S.engine.axiom(("norm", a.id), lambda: T.cmp_(T.Sym.of_atom(a), T.Sym.const(0), ">="), attach=(a.id,))
            T.S.engine.path_sign[a.id] = "0+"
    return r.sqrt()


def _isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


NP["isscalar"] = _isscalar
NP["ndim"] = lambda x: 0 if is_sym(x) else np.ndim(x)
NP["shape"] = lambda x: () if is_sym(x) else np.shape(x)
NP["size"] = lambda x, *a: 1 if is_sym(x) else np.size(x, *a)
NP["isin"] = lambda x, t, **k: (np.isin(clean(x), clean(t), **k) if not has_sym(x) and not has_sym(t) else
                                np.array([any(bool(v == w) for w in oarr(t).flat) for v in oarr(x).flat], dtype=bool).reshape(np.shape(x)))
NP["in1d"] = NP["isin"]


@np_over("intersect1d")
def _(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.intersect1d(clean(a), clean(b), **k)
    return np.array([v for v in NP["unique"](a) if any(bool(v == w) for w in oarr(b).flat)], dtype=object)


NP["logical_and"].reduce = lambda xs, *a, **k: np.logical_and.reduce([np.asarray(x, dtype=bool) for x in xs])
NP["logical_or"].reduce = lambda xs, *a, **k: np.logical_or.reduce([np.asarray(x, dtype=bool) for x in xs])
for _n, _u in (("maximum", _pmax), ("minimum", _pmin)):
    NP[_n].reduce = lambda xs, *a, _u=_u, **k: __import__("functools").reduce(lambda p, q: mapn(_u, p, q), list(xs))
NP["add"].reduce = lambda xs, *a, **k: _sum(list(xs))
NP["multiply"].reduce = lambda xs, *a, **k: _prod(list(xs))


class _Random(object):
    def __getattr__(self, k):
        r = RNG[0]
        if r is None:
            raise EngineGap("random draw outside a harness")
        return getattr(r, k)


NP["random"] = _Random()

# ---- math ---------------------------------------------------------------------------------------------------------------
MATH = {}
for _n, _m in dict(sqrt="sqrt", exp="exp", log10="log10", log2="log2", log1p="log1p", expm1="expm1", sin="sin", cos="cos", tan="tan", asin="arcsin",
                   acos="arccos", atan="arctan", sinh="sinh", cosh="cosh", tanh="tanh", asinh="arcsinh", acosh="arccosh", atanh="arctanh", degrees="degrees",
                   radians="radians", cbrt="cbrt", trunc="trunc").items():
    def _mk(n, m):
        real = getattr(math, n)

        def f(x):
            x = demote(x)
            return getattr(x, m)() if isinstance(x, Sym) else real(x)
        return f
    MATH[_n] = _mk(_n, _m)
MATH["log"] = lambda x, b=None: (NP["log"](x) if b is None else NP["log"](x) / NP["log"](b)) if has_sym(x) or has_sym(b) else (math.log(x) if b is None else math.log(x, b))
MATH["floor"] = lambda x: int(x.floor()) if isinstance(x, Sym) else math.floor(x)
MATH["ceil"] = lambda x: int(x.ceil()) if isinstance(x, Sym) else math.ceil(x)
MATH["fabs"] = lambda x: abs(x) if isinstance(x, Sym) else math.fabs(x)
MATH["pow"] = lambda x, y: x ** y if has_sym(x) or has_sym(y) else math.pow(x, y)
MATH["hypot"] = lambda x, y: NP["hypot"](x, y) if has_sym(x) or has_sym(y) else math.hypot(x, y)
MATH["atan2"] = lambda x, y: NP["arctan2"](x, y) if has_sym(x) or has_sym(y) else math.atan2(x, y)
MATH["isnan"] = lambda x: False if isinstance(x, Sym) else math.isnan(x)
MATH["isfinite"] = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
MATH["isinf"] = lambda x: False if isinstance(x, Sym) else math.isinf(x)
MATH["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: _isclose(a, b, rel_tol, abs_tol) if has_sym(a) or has_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
MATH["erf"] = lambda x: sfun("erf", lambda v: math.erf(v), x, lo=-1, hi=1)


def sfun(name, conc, *xs, **kw):
    """special function: concrete where possible, otherwise an atom with a concrete evaluator"""
    if not any(has_sym(x) for x in xs):
        return conc(*[clean(x) for x in xs])
    return mapn(lambda *v: T.fn_atom(name, tuple(T.lift(x) for x in v), fn=conc, **kw), *xs)


def phi(x):
    """the normal distribution function in double precision: exactly 0 below about -38, exactly 1 above about 8.3"""
    import scipy.special
    x = T.lift(x)
    gt, eq = (lambda a, b: T.cmp_(T.lift(a), T.lift(b), ">")), (lambda a, b: T.cmp_(T.lift(a), T.lift(b), "=="))
    seen = S.engine.__dict__.setdefault("phi_seen", {})
    if x.is_const():
        f = T.lift(float(scipy.special.ndtr(float(x.value()))))
    else:
        f = T.fn_atom("ndtr", (x,), fn=lambda v: scipy.special.ndtr(v), lo=0, hi=1)
        S.engine.axiom(("phi", x.key()), lambda: (gt(8.35, x) | eq(f, 1)) & (gt(x, -38.6) | eq(f, 0)) & (gt(x, 8.2) | gt(1, f)) & (gt(-37.5, x) | gt(f, 0)))
    seen[x.key()] = (x, f)
    return f


def ndtr_(x):
    import scipy.special
    if has_sym(x):
        return mapn(phi, x)
    x = clean(x)
    if np.ndim(x) == 0 and S.engine is not None:
        phi(float(x))
    return scipy.special.ndtr(x)


def phi_inverse(u):
    import scipy.special
    u = T.lift(u)
    if u.is_const():
        return float(scipy.special.ndtri(float(u.value())))
    if bool(u <= 0) or bool(u >= 1):
        raise NanPath("infinite quantile")
    y = T.fn_atom("ndtri", (u,), fn=lambda v: scipy.special.ndtri(v), lo=-38.6, hi=8.35)
    ge = lambda a, b: T.cmp_(T.lift(a), T.lift(b), ">=")
    for x, f in list(S.engine.__dict__.setdefault("phi_seen", {}).values()):
        S.engine.axiom(("phi inverse", u.key(), x.key()), lambda x=x, f=f: (~ge(u, f) | ge(y, x)) & (~ge(f, u) | ge(x, y)))
    return y


# ---- scipy --------------------------------------------------------------------------------------------------------------
QUAD_DEPTH = [0]


def quad(f, a, b, args=(), **k):
    import scipy.integrate
    if not isinstance(args, tuple):
        args = (args,)
    if not has_sym(a) and not has_sym(b) and not has_sym(args):
        probe = f(0.5 * (clean(a) + clean(b)) if math.isfinite(clean(a)) and math.isfinite(clean(b)) else 1.234, *args)
        if not has_sym(probe) and not hidden(f):
            return scipy.integrate.quad(lambda t: float(f(t, *args)), clean(a), clean(b), **{n: v for n, v in k.items() if n in ("limit", "epsabs", "epsrel", "points")})
    return (integral(lambda t: f(t, *args), a, b), 0.0)


def hidden(f):
    return False


def integral(f, a, b):
    """exact for integrands sum c * t^p, canonical integral atoms otherwise"""
    d = QUAD_DEPTH[0]
    t = S.atom(("bound", d), "var", "t$%d" % d, sign=None)
    e = S.engine
    a_, b_ = T.lift(a), T.lift(b)
    if not a_.is_const() or not b_.is_const():
        pass
    pos = T.sign_of(a_) in ("+", "0+") and T.sign_of(b_) in ("+", "0+")
    QUAD_DEPTH[0] += 1
    save = e.path_sign.get(t.id)
    npc = len(e.pc)
    try:
        if pos:
            e.path_sign[t.id] = "+"
        ts = Sym.of_atom(t)
        scope = []
        if not (a_.is_const() and b_.is_const() and a_.value() == b_.value()):
            scope = [T.cmp_(ts, a_, ">="), T.cmp_(b_, ts, ">=")]
        e.bound_scopes.append((t.id, scope))
        try:
            y = f(ts)
        finally:
            e.bound_scopes.pop()
    finally:
        QUAD_DEPTH[0] -= 1
        if save is None:
            e.path_sign.pop(t.id, None)
        else:
            e.path_sign[t.id] = save
    y = T.lift(out(oarr(y)) if isinstance(y, np.ndarray) else y)
    tot = Sym.const(0)
    for m, c in y.t.items():
        free = tuple((i, p) for i, p in m if not depends(i, t.id))
        dep = tuple((i, p) for i, p in m if depends(i, t.id))
        co = Sym({free: c})
        if not dep:
            tot = tot + co * (b_ - a_)
            continue
        if len(dep) == 1 and dep[0][0] == t.id:
            p = dep[0][1]
            if p == -1:
                tot = tot + co * (b_.log() - a_.log())
            else:
                q = p + 1
                tot = tot + co * (T.power(b_, Sym.const(q)) - T.power(a_, Sym.const(q))) * Sym.const(1 / q)
            continue
        tot = tot + co * int_atom(dep, t, a_, b_)
    return tot


_DEP = {}


def depends(i, tid):
    if i == tid:
        return True
    a = S.atoms[i]
    if a.kind == "var":
        return False
    k = (id(S.atoms), i, tid)
    r = _DEP.get(k)
    if r is None:
        from .engine import atoms_of
        r = tid in atoms_of(Sym.of_atom(a), set())
        _DEP[k] = r
    return r


def int_atom(dep, t, a, b):
    from .engine import neval
    integrand = Sym({dep: Fraction(1)})
    name = "int{%s}" % (dep,)
    others = sorted(set(i for i in __import__("symx.engine", fromlist=["x"]).atoms_of(integrand, set()) if S.atoms[i].kind == "var" and i != t.id))

    def conc(av, bv, *rest):
        import scipy.integrate
        env = dict(zip([S.atoms[i].name for i in others], rest))
        def g(x):
            env2 = dict(env)
            env2[t.name] = x
            return neval(integrand, env2, S.engine.fn_conc)
        return scipy.integrate.quad(g, av, bv, limit=200)[0]
    st = T.static_sign(integrand)
    at = T.fn_atom(name, (a, b) + tuple(Sym.of_atom(S.atoms[i]) for i in others), fn=conc)
    if st in ("+", "0+"):
        e = S.engine
        e.axiom(("intsign", name, a.key(), b.key()), lambda: T.cmp_(a, b, ">=") | T.cmp_(at, Sym.const(0), ">" if st == "+" else ">="))
    return at


EXACT = [False]     # interpolate numerical tables segment by segment whatever their length


class Interp1d(object):
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False, **k):
        import scipy.interpolate
        self.sym = has_sym(x) or has_sym(y)
        self.x, self.y = clean(x), clean(y)
        self.bounds_error, self.fill_value, self.kind = bounds_error, fill_value, kind
        if not self.sym:
            self.real = scipy.interpolate.interp1d(self.x, self.y, kind, axis, copy, bounds_error, clean(fill_value), assume_sorted)
        else:
            o = NP["argsort"](self.x)
            self.x = [oarr(self.x)[i] for i in o]
            self.y = [oarr(self.y)[i] for i in o]

    def __call__(self, v):
        if not self.sym and not has_sym(v):
            return self.real(clean(v))
        smooth = self.kind in ("cubic", 3) and not self.sym and len(self.x) > 64
        if self.kind not in ("linear", 1) and not smooth:
            raise EngineGap("interp1d kind %r" % (self.kind,))
        xs, ys = list(self.x), list(self.y)
        if not self.sym:
            o = np.argsort(self.x, kind="stable")
            xs, ys = list(np.asarray(self.x)[o]), list(np.asarray(self.y)[o])
        table = None
        if smooth:
            # a cubic through a dense table: its shape is that of a ten times denser one
            a = np.asarray(xs, dtype=float)
            a = np.unique(np.concatenate([a[:-1] + t * np.diff(a) for t in np.linspace(0, 1, 11)] + [a[-1:]]))
            table = long_table(a, np.asarray(self.real(a), dtype=float), self.real)
        elif len(xs) > (1000 if EXACT[0] else 64):
            if self.sym:
                if has_sym(self.x) or has_sym(v):
                    raise EngineGap("interp1d over a long symbolic table")
            else:
                table = long_table(np.asarray(xs, dtype=float), np.asarray(ys, dtype=float), self.real)
        fv = self.fill_value
        extrap = isinstance(fv, str) and fv == "extrapolate"
        be = self.bounds_error if self.bounds_error is not None else (not extrap and (isinstance(fv, float) and math.isnan(fv)))

        # the ends of a numerical table are compared up to the rounding of numerical constants
        tol = 0 if self.sym else 1e-12 * max(abs(float(xs[0])), abs(float(xs[-1])))

        def one(q):
            if not extrap:
                if bool(q < xs[0] - tol):
                    if be:
                        raise ValueError("A value in x_new is below the interpolation range.")
                    return fv[0] if isinstance(fv, tuple) else fv
                if bool(q > xs[-1] + tol):
                    if be:
                        raise ValueError("A value in x_new is above the interpolation range.")
                    return fv[1] if isinstance(fv, tuple) else fv
            if table is not None:
                return table(q)
            return piecewise(q, xs, ys)
        return mapn(one, v)


def long_table(xs, ys, real):
    """linear interpolation of a long numerical table: any function within its extremes, monotone when the table is; exact at
    numerical arguments"""
    if ys.ndim != 1 or not np.all(np.isfinite(ys)):
        raise EngineGap("interp1d over a long table")
    import hashlib
    name = "table-" + hashlib.sha1(xs.tobytes() + ys.tobytes()).hexdigest()[:10]
    eng = S.engine
    conc = lambda q: float(real(min(max(q, xs[0]), xs[-1])))
    eng.fn_conc[name] = conc
    d = np.diff(ys)
    if np.all(d >= 0):
        eng.fn_monotone[name] = "inc" if np.all(d > 0) and np.all(np.diff(xs) > 0) else "nondec"
    elif np.all(d <= 0):
        eng.fn_monotone[name] = "dec" if np.all(d < 0) and np.all(np.diff(xs) > 0) else "noninc"
    lo, hi = T.frac(float(ys.min())), T.frac(float(ys.max()))
    mono = eng.fn_monotone.get(name)
    up = mono in ("inc", "nondec")
    knots = [float(xs[0] + t * (xs[-1] - xs[0])) for t in (0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98)] if mono else []

    def f(q):
        q = T.lift(q)
        at = T.fn_atom(name, (q,), lo=lo, hi=hi)
        for k in knots if not q.is_const() else []:
            v, w = Sym.const(conc(k)), Sym.const(k)
            eng.axiom(("knot", name, k, q.key()), lambda v=v, w=w: (T.cmp_(w, q, ">") | T.cmp_(*((at, v) if up else (v, at)), ">=")) & (T.cmp_(q, w, ">") | T.cmp_(*((v, at) if up else (at, v)), ">=")))
        if q.is_const():
            v = conc(float(q.value()))
            eng.axiom(("pin", name, q.key()), lambda: T.cmp_(at, Sym.const(v), "=="))
        return at
    return f


class Frozen(object):
    """scipy.stats frozen distribution"""

    def __init__(self, real, kind, a, k):
        self._r, self._k, self._a, self._kw = real, kind, a, k

    def rvs(self, size=None, random_state=None):
        kw = dict(self._kw)
        kw["size"] = size
        return getattr(RNG[0], self._k + "_rvs")(*self._a, **kw)

    def __getattr__(self, n):
        return getattr(self._r(*[clean(v) for v in self._a], **{q: clean(v) for q, v in self._kw.items()}), n)


class Dist(object):
    def __init__(self, real, kind):
        self._r, self._k = real, kind

    def rvs(self, *a, **k):
        return getattr(RNG[0], self._k + "_rvs")(*a, **k)

    def __call__(self, *a, **k):
        return Frozen(self._r, self._k, a, k)

    def __getattr__(self, n):
        return guarded(getattr(self._r, n), self._k + "." + n)


def _lazy(modname, over):
    real = importlib.import_module(modname)
    return Proxy(real, over)


def build():
    import numpy.linalg
    P = {}
    lin = Proxy(np.linalg, {"norm": _norm, "solve": guarded(np.linalg.solve, "solve"), "inv": guarded(np.linalg.inv, "inv")})
    NP["linalg"] = lin
    npx = Proxy(np, NP)
    P["numpy"] = npx
    P["numpy.linalg"] = lin
    P["math"] = Proxy(math, MATH)
    import scipy, scipy.integrate, scipy.interpolate, scipy.stats, scipy.special, scipy.optimize
    sp = scipy.special
    P["scipy.integrate"] = Proxy(scipy.integrate, {"quad": quad, "simpson": simpson, "trapezoid": _trapz})
    P["scipy.interpolate"] = Proxy(scipy.interpolate, {"interp1d": Interp1d, "RegularGridInterpolator": ngrid, "RectBivariateSpline": spline2})
    P["scipy.stats"] = Proxy(scipy.stats, {"truncnorm": Dist(scipy.stats.truncnorm, "truncnorm"), "johnsonsu": Dist(scipy.stats.johnsonsu, "johnsonsu")})
    P["scipy.special"] = Proxy(sp, {
        "hyp2f1": lambda *a: sfun("hyp2f1", lambda *v: sp.hyp2f1(*v), *a),
        "ndtr": ndtr_,
        "ndtri": lambda x: mapn(phi_inverse, x) if has_sym(x) else sp.ndtri(clean(x)),
        "erf": lambda x: sfun("erf", lambda v: sp.erf(v), x, lo=-1, hi=1),
        "gamma": lambda x: sfun("gamma", lambda v: sp.gamma(v), x),
        "eval_chebyt": chebyt})
    P["scipy.optimize"] = Proxy(scipy.optimize, {n: guarded(getattr(scipy.optimize, n), n) for n in ("minimize", "brentq", "root", "curve_fit", "newton", "root_scalar", "bisect")})
    P["scipy"] = Proxy(scipy, {k.split(".")[1]: v for k, v in P.items() if k.startswith("scipy.")}, wrap=False)
    return P


def simpson(y, x=None, dx=1.0, axis=-1, **k):
    import scipy.integrate
    if not has_sym(y) and not has_sym(x):
        return scipy.integrate.simpson(clean(y), x=clean(x) if x is not None else None, dx=dx, axis=axis)
    if has_sym(x) or has_sym(dx):
        raise EngineGap("simpson over symbolic abscissas")
    return linear_map(lambda v: scipy.integrate.simpson(v, x=clean(x) if x is not None else None, dx=clean(dx), axis=axis), y)


def linear_map(f, arr):
    """f (linear over the reals, on arrays of numbers) of an array of symbolic values: f of the coefficients of every monomial"""
    arr = np.asarray(arr, dtype=object)
    parts = {}
    for i, v in enumerate(arr.reshape(-1)):
        for m, c in T.lift(v).t.items():
            parts.setdefault(m, np.zeros(arr.size))[i] = float(c)
    out = None
    for m, c in parts.items():
        r = np.asarray(f(c.reshape(arr.shape)))
        if out is None:
            out = np.array([Sym({})] * r.size, dtype=object)
        for i, q in enumerate(r.reshape(-1)):
            out[i] = out[i] + Sym({m: T.frac(float(q))} if q else {})
        shape = r.shape
    if out is None:
        return f(np.zeros(arr.shape))
    return oarr(out.reshape(shape)) if shape else out[0]


def cell(q, xs):
    """index of the interval of a numerical grid a value lies in (the first or last one outside the grid)"""
    lo, hi = 0, len(xs) - 2
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if bool(q < float(xs[mid])):
            hi = mid - 1
        else:
            lo = mid
    return lo


def ngrid(points, values, method="linear", bounds_error=True, fill_value=np.nan, **k):
    import scipy.interpolate
    points, values = clean(points), clean(values)
    if has_sym(points) or has_sym(values):
        raise EngineGap("RegularGridInterpolator of a symbolic grid")
    real = scipy.interpolate.RegularGridInterpolator(points, values, method=method, bounds_error=bounds_error, fill_value=clean(fill_value), **k)

    def one(q):
        grid = real.grid
        if len(q) != len(grid):
            raise ValueError("The requested sample points xi have dimension %d, but this RegularGridInterpolator has dimension %d" % (len(q), len(grid)))
        if not has_sym(q):
            return float(real(clean(list(q)))[0])
        if bounds_error or fill_value is not None:
            for v, xs in zip(q, grid):
                if bool(v < float(xs[0])) or bool(v > float(xs[-1])):
                    if bounds_error:
                        raise ValueError("One of the requested xi is out of bounds")
                    return fill_value
        corner = np.asarray(real.values, dtype=float)
        idx = [cell(v, xs) for v, xs in zip(q, grid)]
        corner = corner[tuple(slice(i, i + 2) for i in idx)].astype(object)
        for v, xs, i in zip(q, grid, idx):
            a, b = float(xs[i]), float(xs[i + 1])
            w = (v - a) * (1.0 / (b - a))
            corner = corner[0] + (corner[1] - corner[0]) * w
        return corner

    def call(xi, *a, **kk):
        if not has_sym(xi):
            return real(clean(xi), *a, **kk)
        if method != "linear" or a or kk or np.ndim(real.values) != len(real.grid):
            raise EngineGap("RegularGridInterpolator of a symbolic point")
        if isinstance(xi, tuple):
            parts = np.broadcast_arrays(*[np.asarray(v, dtype=object) for v in xi])
            shape = parts[0].shape
            pts = list(zip(*[p.ravel() for p in parts]))
        else:
            arr = np.asarray(xi, dtype=object)
            if arr.ndim == 1:
                arr = arr.reshape(1, -1)
            shape = arr.shape[:-1]
            pts = list(arr.reshape(-1, arr.shape[-1]))
        out = np.empty(len(pts), dtype=object)
        for n, q in enumerate(pts):
            out[n] = one(tuple(q))
        return oarr(out.reshape(shape)) if shape else out[0]
    call.real = real
    for n in ("grid", "values", "bounds_error", "fill_value", "method"):
        setattr(call, n, getattr(real, n, None))
    return call


def spline2(*a, **k):
    import scipy.interpolate
    if len(a) == 3 and has_sym(a[2]) and not has_sym(a[:2]) and k.get("s", 0) == 0:
        # an interpolating spline is linear in the values it interpolates
        def call(x, y, *p, **q):
            return linear_map(lambda v: scipy.interpolate.RectBivariateSpline(clean(a[0]), clean(a[1]), v, **k)(clean(x), clean(y), *p, **q), a[2])
        return call
    real = scipy.interpolate.RectBivariateSpline(*[clean(x) for x in a], **k)
    return guarded(real, "RectBivariateSpline")


def chebyt(n, x):
    import scipy.special
    if not has_sym(x):
        return scipy.special.eval_chebyt(n, clean(x))
    a, b = 1, x
    if n == 0:
        return 1 + 0 * x
    for _ in range(int(n) - 1):
        a, b = b, 2 * x * b - a
    return b


class _Lazy(dict):
    def get(self, k, d=None):
        if not len(self):
            self.update(build())
        return dict.get(self, k, d)

    def __contains__(self, k):
        if not len(self):
            self.update(build())
        return dict.__contains__(self, k)


PROXIES = _Lazy()
