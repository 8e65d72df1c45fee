"""Stand-in halos: exactly the documented interface of a halo that the realization classes use."""
import numpy as np


class FakeHalo(object):
    def __init__(self, tag, mass, x, y, z, sub=False, r3d=None, mdef="TNFW", fixed=False, bound=None, components=("NFW",), numerical=None):
        self.mass, self.x, self.y, self.z, self.r3d, self.mdef = mass, x, y, z, r3d, mdef
        self.is_subhalo, self.fixed_position, self.unique_tag = sub, fixed, tag
        self._bound = bound
        self._comp, self._num = list(components), numerical
        self._args = {}
        self.rescale_norm = 1.0

    @property
    def bound_mass(self):
        if self._bound is None:
            raise Exception("no bound mass")
        return self._bound

    @property
    def lenstronomy_ID(self):
        return list(self._comp)

    @property
    def lenstronomy_params(self):
        return [{"owner": self.unique_tag, "component": i, "center_x": self.x, "center_y": self.y} for i in range(len(self._comp))], self._num


class Ray(object):
    """light ray: any function of the comoving distance, called with numbers or arrays as an interp1d is"""

    def __init__(self, f, amp=1):
        self.f = f
        self.calls = 0

    def __call__(self, d):
        self.calls += 1
        if isinstance(d, (list, tuple)):
            d = np.array(d)
        r = self.f(d)
        if isinstance(d, np.ndarray):
            return r
        return r


def ray(ctx, name, lo=-20, hi=20):
    k = sum(map(ord, name)) % 7 + 1
    return Ray(ctx.fn(name, lambda d: (0.2 * k - 0.6) + 1e-4 * k * d, lo=lo, hi=hi))


def realization(ctx, halos, lc, rx=None, ry=None, classes=None, sheets=True, geometry=None, kw=None):
    R = ctx.get("pyHalo.single_realization", "Realization")
    return R.from_halos(halos, lc, kw if kw is not None else {}, sheets, classes, rx, ry, geometry)


def snapshot(halos):
    return [(id(h), h.mass, h.x, h.y, h.z, h.r3d, h.mdef, h.is_subhalo, h.fixed_position, h.unique_tag) for h in halos]


def unchanged(ctx, halos, snap, label):
    ctx.check(len(halos) == len(snap), label + ": number of halos")
    for h, s in zip(halos, snap):
        t = (id(h), h.mass, h.x, h.y, h.z, h.r3d, h.mdef, h.is_subhalo, h.fixed_position, h.unique_tag)
        for a, b in zip(t, s):
            ctx.check(a is b or a == b, label)


def same_arrays(ctx, r, label="stored arrays"):
    """the arrays a realization stores agree element by element with its halo list"""
    hs = r.halos
    for name, get in (("masses", lambda h: h.mass), ("x", lambda h: h.x), ("y", lambda h: h.y), ("redshifts", lambda h: h.z), ("r3d", lambda h: h.r3d),
                      ("mdefs", lambda h: h.mdef), ("subhalo_flags", lambda h: h.is_subhalo)):
        v = list(getattr(r, name))
        ctx.check(len(v) == len(hs), "%s: %s has one entry per halo" % (label, name))
        for a, h in zip(v, hs):
            b = get(h)
            if b is None or isinstance(b, (str, bool)):
                ctx.check(a is b or a == b, "%s: %s" % (label, name))
            else:
                ctx.close(a, b, "%s: %s" % (label, name), rtol=1e-12)
