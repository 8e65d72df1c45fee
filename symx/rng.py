"""Randomness as an environment: every numpy / scipy draw returns an arbitrary value of its range.

The same code serves the symbolic mode (values are symbolic variables) and the concrete replay (values of the model).
Draws are logged so that a harness can refer to the distribution a value was drawn from.
"""
import numpy as np


class Rng(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.log = []            # (kind, parameters, value(s))
        self.poisson_max = 3
        self.gauss_max = 6
        self.max_size = 200
        self.feed = []           # values to hand out again (a second run on the same random numbers)
        self.counts = None       # Poisson numbers to hand out (chosen by the harness)
        self.tags = False        # single numbers in [0, 1) serve as identifiers: distinct numbers
        self.draws = []          # the underlying uniform or standard normal deviates

    def u(self, lo=0, hi=1, hi_strict=True):
        if self.feed:
            v = self.feed.pop(0)
        else:
            self.n += 1
            v = self.ctx.real("rnd%d" % self.n, lo, hi, hi_strict=hi_strict)
        self.draws.append(v)
        return v

    def integer(self, lo, hi):
        self.n += 1
        return self.ctx.integer("rnd%d" % self.n, lo, hi)

    def shape(self, size):
        if size is None:
            return None
        if isinstance(size, tuple):
            return tuple(int(s) for s in size)
        return (self.ctx.as_int(size),)

    def fill(self, size, f, kind, params):
        sh = self.shape(size)
        if sh is None:
            v = f(())
            self.log.append((kind, params, v))
            return v
        n = int(np.prod(sh)) if sh else 1
        if n > self.max_size:
            self.ctx.gap("%d random numbers requested at once" % n)
        out = np.empty(n, dtype=object)
        idx = list(np.ndindex(*sh))
        for i in range(n):
            out[i] = f(idx[i])
        out = out.reshape(sh)
        self.log.append((kind, params, out))
        return self.ctx.demote(out)

    @staticmethod
    def at(p, i, size_given):
        if np.ndim(p) == 0:
            return p.item() if isinstance(p, np.ndarray) else p
        return np.asarray(p)[i[-np.ndim(p):]]

    @staticmethod
    def bshape(size, *ps):
        if size is not None:
            return size
        sh = np.broadcast_shapes(*[np.shape(p) for p in ps])
        return sh if sh else None

    # ---- numpy.random ------------------------------------------------------------------------------------------
    def tag(self):
        self.n += 1
        v = (self.n % 997 + 0.5) / 1000.0
        self.log.append(("uniform", (0, 1), v))
        return v

    def rand(self, *shape):
        if self.tags and not shape:
            return self.tag()
        return self.fill(shape if shape else None, lambda i: self.u(), "uniform", (0, 1))

    def random(self, size=None):
        if self.tags and size is None:
            return self.tag()
        return self.fill(size, lambda i: self.u(), "uniform", (0, 1))
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        size = self.bshape(size, low, high)
        if self.tags and size is None and not hasattr(low, "t") and not hasattr(high, "t") and (low, high) == (0, 1):
            return self.tag()
        return self.fill(size, lambda i: self.at(low, i, 1) + (self.at(high, i, 1) - self.at(low, i, 1)) * self.u(), "uniform", (low, high))

    def normal(self, loc=0.0, scale=1.0, size=None):
        size = self.bshape(size, loc, scale)
        g = self.gauss_max
        return self.fill(size, lambda i: self.at(loc, i, 1) + self.at(scale, i, 1) * self.u(-g, g, False), "normal", (loc, scale))

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        size = self.bshape(size, mean, sigma)
        g = self.gauss_max
        return self.fill(size, lambda i: self.ctx.exp(self.at(mean, i, 1) + self.at(sigma, i, 1) * self.u(-g, g, False)), "lognormal", (mean, sigma))

    def poisson(self, lam=1.0, size=None):
        size = self.bshape(size, lam)

        def one(i):
            l = self.at(lam, i, 1)
            if bool(l < 0):
                raise ValueError("lam < 0 or lam is NaN")
            if bool(l == 0):
                return 0
            if self.counts is not None:
                return self.counts.pop(0) if self.counts else self.ctx.gap("more Poisson numbers drawn than expected")
            return self.integer(0, self.poisson_max)
        return self.fill(size, one, "poisson", (lam,))

    def binomial(self, n, p, size=None):
        def one(i):
            return self.integer(0, self.ctx.as_int(n))
        return self.fill(size, one, "binomial", (n, p))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = self.ctx.as_int(low), self.ctx.as_int(high)
        return self.fill(size, lambda i: self.integer(low, high - 1), "randint", (low, high))
    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(self.ctx.as_int(a)) if np.ndim(a) == 0 else np.asarray(a)
        pp = None if p is None else [x for x in np.asarray(p)]
        used = []

        def one(i):
            ok = [j for j in range(len(arr)) if j not in used]
            if not ok:
                raise ValueError("cannot take a sample")
            k = self.integer(0, len(ok) - 1) if len(ok) > 1 else 0
            k = self.ctx.as_int(k)
            if pp is not None:
                self.ctx.assume(pp[ok[k]] > 0)
            if not replace:
                used.append(ok[k])
            return arr[ok[k]]
        return self.fill(size, one, "choice", (arr, p, replace))

    def permutation(self, x):
        arr = np.arange(int(x)) if np.ndim(x) == 0 else np.array(x)
        rest = list(range(len(arr)))
        out = []
        while rest:
            k = self.ctx.as_int(self.integer(0, len(rest) - 1)) if len(rest) > 1 else 0
            out.append(rest.pop(k))
        return arr[out]

    def shuffle(self, x):
        y = self.permutation(x)
        x[:] = y

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    # ---- scipy.stats -------------------------------------------------------------------------------------------
    def truncnorm_rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        if size is None:
            size = self.bshape(None, a, b, loc, scale)
        def one(i):
            lo, hi = self.at(a, i, 1), self.at(b, i, 1)
            t = lo + (hi - lo) * self.u(0, 1, False)
            return self.at(loc, i, 1) + self.at(scale, i, 1) * t
        return self.fill(size, one, "truncnorm", (a, b, loc, scale))

    def johnsonsu_rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        if size is None:
            size = self.bshape(None, a, b, loc, scale)
        g = self.gauss_max
        def one(i):
            n = self.u(-g, g, False)
            return self.at(loc, i, 1) + self.at(scale, i, 1) * self.ctx.sinh((n - self.at(a, i, 1)) / self.at(b, i, 1))
        return self.fill(size, one, "johnsonsu", (a, b, loc, scale))


NAMES = ["rand", "random", "random_sample", "ranf", "sample", "uniform", "normal", "randn", "standard_normal", "lognormal", "poisson",
         "binomial", "randint", "choice", "permutation", "shuffle", "seed", "default_rng"]
