"""P11 rendered populations are complete, aligned and correctly labelled"""
from symx.api import registry
from harness import world
import numpy as np
HARNESSES, harness = registry()
SUB = "pyHalo.Rendering.subhalos"
LOS = "pyHalo.Rendering.line_of_sight"
TWO = "pyHalo.Rendering.two_halo"
POP = "pyHalo.Rendering.halo_population"


class World(object):
    """hands out tagged objects: the mass (a number) names the object, its position is symbolic"""

    def __init__(self, ctx, counts):
        self.ctx, self.counts = ctx, list(counts)
        self.n = 0
        self.drawn = []           # (label, z, [masses])
        self.placed = []          # (label, z, n, x, y, r3)
        self.made = []

    def masses(self, label, z):
        k = self.counts.pop(0) if self.counts else 0
        m = [1e7 + self.n + i for i in range(k)]
        self.n += k
        self.drawn.append((label, z, m))
        return np.array(m)

    def place(self, label, n, z, three):
        j = len(self.placed)
        own = [d for d in self.drawn if d[0] == label and len(d[2]) == n and not any(p[6] is d for p in self.placed)]
        A = lambda v: np.array(v, dtype=object if self.ctx.symbolic else float)
        x = [self.ctx.real("x%d_%d" % (j, i), -500, 500) for i in range(n)]
        y = [self.ctx.real("y%d_%d" % (j, i), -500, 500) for i in range(n)]
        r = [self.ctx.real("r%d_%d" % (j, i), 1, 500) for i in range(n)]
        self.placed.append((label, z, n, x, y, r if three else None, own[0] if own else None))
        return (A(x), A(y), A(r)) if three else (A(x), A(y))


def mf(w, label):
    class MF(object):
        def __init__(self, *a, **kw):
            self.z = None
            w.made.append((label, kw))
            self.n_mean = self.first_moment = 1.0

        @classmethod
        def from_redshift(cls, z, dz, geometry, kw):
            o = cls(**kw)
            o.z = z
            return o

        def draw(self):
            return w.masses(label, self.z)
    return MF


def place(w, label, kind):
    class Place(object):
        name = kind

        def __init__(self, *a, **k):
            self.via = "init"
            self.kw = k

        @classmethod
        def from_Mhost(cls, *a, **k):
            o = cls(**k)
            o.via = "host"
            return o

        def draw(self, n, z=None, *a, **k):
            return w.place(label, int(n), z, kind == "PROJECTEDNFW")
    return Place


def expected(w):
    """what was drawn, object by object: mass -> (label, z, x, y, r3)"""
    out = {}
    for d in w.drawn:
        label, z, ms = d
        p = [p for p in w.placed if p[6] is d]
        if not ms or not p:
            for m in ms:
                out[m] = (label, z, None, None, None, None)
            continue
        _, zp, n, x, y, r, _ = p[0]
        for i, m in enumerate(ms):
            out[m] = (label, z, zp, x[i], y[i], r[i] if r is not None else None)
    return out


def aligned(ctx, w, c, out, zl, flags):
    m, x, y, r3, z, flag = out
    n = len(m)
    for name, v in (("x", x), ("y", y), ("3D radius", r3), ("redshift", z), ("flag", flag)):
        ctx.check(len(v) == n, "as many %s values as masses" % name)
    exp = expected(w)
    ctx.check(n == len(exp), "every drawn object is returned")
    seen = set()
    for i in range(n):
        mi = float(m[i])
        ctx.check(mi in exp and mi not in seen, "no object lost, duplicated or altered")
        seen.add(mi)
        label, zd, zp, xk, yk, rk = exp[mi]
        ctx.check(xk is not None, "every drawn object is placed")
        zi = zd if zd is not None else zl
        ctx.close(z[i], zi, "redshift of the plane the object was drawn for")
        if zp is not None:
            ctx.close(zp, zi, "placed on its own plane")
        k = c.kpc_proper_per_asec(zi)
        ctx.close(x[i] * k, xk, "x coordinate of the same object, in arcsec", atol=1e-9)
        ctx.close(y[i] * k, yk, "y coordinate of the same object, in arcsec", atol=1e-9)
        if rk is None:
            ctx.check(r3[i] is None, "no 3D radius for objects without one")
        else:
            ctx.close(r3[i], rk, "3D radius of the same object")
        ctx.check(bool(flag[i]) == flags[label], "subhalo flag of the object's population")
        ctx.observe("z", z[i])


COUNTS = [(1, 2, 0), (0, 0, 0), (0, 1, 1), (2, 0, 1), (0, 0, 3)]


@harness("line of sight: three planes at any increasing redshifts, 0 to 3 objects per plane in five patterns, both population classes; symbolic positions")
def los(ctx):
    c = world.Cosmology(ctx)
    z0 = ctx.real("z0", 0.01, 1)
    zs = [z0, z0 + ctx.real("dz1", 0.01, 0.5), None]
    zs[2] = zs[1] + ctx.real("dz2", 0.01, 0.5)
    w = World(ctx, ctx.choice("counts", COUNTS))
    C = ctx.get(LOS, ctx.choice("class", ["LineOfSight", "LineOfSightNoSheet"]))
    g = world.Geo(ctx, c, 0.5, 3.5, 6.0)
    kw = dict(log_mlow=6.0, log_mhigh=10.0, LOS_normalization=1.0, m_pivot=10 ** 8)
    o = C(mf(w, "los"), kw, place(w, "los", "LENS_CONE_UNIFORM")(), g, world.free_lens_cosmo(ctx, 0.5, 3.5, cosmo=c), zs, [0.01] * 3)
    out = o.render()
    aligned(ctx, w, c, out, 0.5, {"los": False})
    if len(out[0]):
        for z in out[4]:
            ctx.check(any(ctx.same(z, p) for p in zs), "objects only on the lens planes")


@harness("subhalos: 0 to 3 objects, uniform and host-profile placement, any lens redshift; symbolic positions")
def subhalos(ctx):
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    n = ctx.choice("n", [0, 1, 3])
    kind = ctx.choice("placement", ["PROJECTEDNFW", "UNIFORM", "LENS_CONE_UNIFORM"])
    w = World(ctx, [n])
    g = world.Geo(ctx, c, zl, zl + 1, 6.0)
    kw = dict(log_mlow=6.0, log_mhigh=10.0, m_pivot=10 ** 8, power_law_index=-1.9, delta_power_law_index=0.0, sigma_sub=0.1, log_m_host=13.0,
              host_scaling_factor=0.88, redshift_scaling_factor=1.7)
    o = ctx.get(SUB, "Subhalos")(mf(w, "sub"), kw, place(w, "sub", kind)(), g, world.free_lens_cosmo(ctx, zl, zl + 1, cosmo=c))
    aligned(ctx, w, c, o.render(), zl, {"sub": True})


def two_halo_patches(ctx, lc):
    M = ctx.load(TWO)

    class Conc(object):
        def __init__(self, *a, **k):
            pass

        def nfw_concentration(self, m, z):
            return 5.0
    ctx.patch(M, "ConcentrationDiemerJoyce", Conc)
    ctx.patch(lc, "twohaloterm", lambda r, m, z, mdef="200c": 0.5)
    return M


@harness("two-halo population: 0 to 3 objects, only on the main deflector's plane, not flagged as subhalos")
def two_halo(ctx):
    c = world.Cosmology(ctx)
    zl = 0.5
    lc = world.free_lens_cosmo(ctx, zl, 1.5, cosmo=c)
    M = two_halo_patches(ctx, lc)
    w = World(ctx, [ctx.choice("n", [0, 1, 3])])
    g = world.Geo(ctx, c, zl, 1.5, 6.0)
    kw = dict(log_mlow=6.0, log_mhigh=10.0, LOS_normalization=1.0, m_pivot=10 ** 8, log_m_host=13.0)
    o = M.TwoHaloContribution(mf(w, "two"), kw, place(w, "two", "LENS_CONE_UNIFORM")(), g, lc, [0.48, 0.5, 0.52], [0.02, 0.02, 0.02])
    out = o.render()
    aligned(ctx, w, c, out, zl, {"two": False})
    for z in out[4]:
        ctx.close(z, zl, "only on the main deflector's plane")


MODELS = [["LINE_OF_SIGHT", "SUBHALOS"], ["SUBHALOS", "LINE_OF_SIGHT"], ["LINE_OF_SIGHT", "SUBHALOS", "TWO_HALO"], ["TWO_HALO", "LINE_OF_SIGHT_NOSHEET"],
          ["SUBHALOS"], ["LINE_OF_SIGHT_NOSHEET", "SUBHALOS", "SUBHALOS"]]
LAB = {"LINE_OF_SIGHT": ("LineOfSight", False), "LINE_OF_SIGHT_NOSHEET": ("LineOfSightNoSheet", False), "SUBHALOS": ("Subhalos", True), "TWO_HALO": ("TwoHaloContribution", False)}


def population_args(ctx, w, models, kinds):
    mfs, kws, pls, kpl = [], [], [], []
    for i, m in enumerate(models):
        lab = "%s%d" % (m, i)
        mfs.append(mf(w, lab))
        kw = dict(log_mlow=6.0, log_mhigh=10.0, m_pivot=10 ** 8, LOS_normalization=1.0, log_m_host=13.0)
        if m == "SUBHALOS":
            kw.update(power_law_index=-1.9, delta_power_law_index=0.0, sigma_sub=0.1, host_scaling_factor=0.88, redshift_scaling_factor=1.7)
        kws.append(kw)
        pls.append(place(w, lab, kinds if m == "SUBHALOS" else "LENS_CONE_UNIFORM"))
        kpl.append({})
    return mfs, kws, pls, kpl


@harness("combinations of one to three populations in any of six orders, each with 0 to 2 objects per plane on three planes; host-profile and uniform subhalos", max_paths=900)
def combined(ctx):
    c = world.Cosmology(ctx)
    zl = 0.5
    lc = world.free_lens_cosmo(ctx, zl, 1.5, cosmo=c)
    two_halo_patches(ctx, lc)
    models = ctx.choice("populations", MODELS)
    pat = ctx.choice("counts", [(1, 2, 0, 1, 2, 1, 1), (0, 0, 0, 0, 0, 0, 0), (2, 0, 1, 0, 1, 0, 2), (0, 1, 0, 2, 0, 2, 0)])
    w = World(ctx, pat)
    kinds = ctx.choice("placement", ["PROJECTEDNFW", "UNIFORM"])
    mfs, kws, pls, kpl = population_args(ctx, w, models, kinds)
    g = world.Geo(ctx, c, zl, 1.5, 6.0)
    H = ctx.get(POP, "HaloPopulation")(models, mfs, kws, pls, kpl, lc, g, [0.48, 0.5, 0.9], [0.02, 0.4, 0.6])
    ctx.check([type(o).__name__ for o in H.rendering_classes] == [LAB[m][0] for m in models], "one rendering class per population, in order")
    out = H.render()
    aligned(ctx, w, c, out, zl, {"%s%d" % (m, i): LAB[m][1] for i, m in enumerate(models)})
    # several populations concatenated in order
    ctx.check([float(v) for v in out[0]] == [1e7 + i for i in range(w.n)], "populations concatenated in order")


@harness("unknown population name refused")
def unknown_population(ctx):
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, 0.5, 1.5, cosmo=c)
    w = World(ctx, [])
    name = ctx.choice("name", ["LOS", "SUBHALO", "line_of_sight", ""])
    mfs, kws, pls, kpl = population_args(ctx, w, [name], "UNIFORM")
    ctx.raises(lambda: ctx.get(POP, "HaloPopulation")([name], mfs, kws, pls, kpl, lc, world.Geo(ctx, c, 0.5, 1.5, 6.0), [0.5], [0.5]), label="unknown population refused")


@harness("front end: one or two realizations rendered through pyHalo.render with a requested plane spacing; masses, positions, radii, redshifts and flags reach the realization unchanged and aligned; symbolic positions; default cosmology", witnesses=2)
def front_end(ctx):
    P = ctx.load("pyHalo.pyhalo")
    got = []

    class Real(object):
        def __init__(self, masses, x, y, r3d, mdefs, z, subhalo_flag, lens_cosmo, halos=None, kwargs_halo_model={}, mass_sheet_correction=True,
                     rendering_classes=None, **kw):
            got.append((masses, x, y, r3d, z, subhalo_flag, lens_cosmo, mass_sheet_correction, rendering_classes, kw, kwargs_halo_model))
    ctx.patch(P, "Realization", Real)
    ph = P.pyHalo(0.5, 1.5)
    models = ["LINE_OF_SIGHT", "SUBHALOS"]
    n = ctx.choice("realizations", [1, 2])
    w = World(ctx, [1, 2, 0, 2, 1, 0, 1, 1])
    mfs, kws, pls, kpl = population_args(ctx, w, models, "PROJECTEDNFW")
    g = world.Geo(ctx, world.Cosmology(ctx), 0.5, 1.5, 6.0)
    kh = {"some": "model"}
    rl = ph.render(models, mfs, kws, pls, kpl, g, "TNFW", "TNFW", kh, nrealizations=n, lens_plane_spacing=0.5)
    ctx.check(len(rl) == n and len(got) == n, "as many realizations as requested")
    drawn, placed = list(w.drawn), list(w.placed)
    per = 4
    for i in range(n):
        m, x, y, r3, z, f, lc, sheets, rc, kw, hm = got[i]
        w.drawn, w.placed = drawn[per * i:per * i + per], placed
        ctx.check(len(w.drawn) == per, "three planes of line-of-sight halos and one of subhalos")
        k = 0
        aligned_real(ctx, w, g, (m, x, y, r3, z, f), {"LINE_OF_SIGHT0": False, "SUBHALOS1": True})
        ctx.check(sorted(set(float(v[1]) for v in w.drawn if v[1] is not None)) == [0.01, 0.5, 1.0], "planes of the requested spacing")
        ctx.check(sheets is True, "mass sheets enabled")
        ctx.check(kw.get("geometry") is g, "geometry handed on")
        ctx.check(lc is ph.lens_cosmo, "lens cosmology handed on")
        ctx.check(hm == kh, "halo model keywords handed on")
        ctx.check(len(rc) == 2, "rendering classes handed on")


def aligned_real(ctx, w, g, out, flags):
    c = g.cosmo
    aligned(ctx, w, c, out, 0.5, flags)
