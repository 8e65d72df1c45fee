"""P05 negative mass sheets cancel exactly the mean mass that is rendered"""
from symx.api import registry
from harness import world
from harness.fakes import FakeHalo, ray, realization
from harness.p11 import two_halo_patches
import numpy as np
HARNESSES, harness = registry()
SUB, LOS, TWO = "pyHalo.Rendering.subhalos", "pyHalo.Rendering.line_of_sight", "pyHalo.Rendering.two_halo"


def crit_mass(c, z, zs, area):
    """critical mass of an area in Mpc^2: c^2/(4 pi G) D_s/(D_d D_ds) A"""
    return c.c ** 2 * (4 * np.pi * c.G) ** -1 * c.D_A_z(zs) / (c.D_A_z(z) * c.D_A(z, zs)) * area


class Plane(object):
    """mass function whose expected mass is an arbitrary non-negative function of plane and mass limits"""

    def __init__(self, ctx, name):
        self.f = ctx.fn(name, lambda *a: 3e6 * (1 + a[0]) * max(0.0, a[-1] - a[-2]), lo=0)
        f = self.f
        asked = self.asked = []

        class MF(object):
            def __init__(self, **kw):
                asked.append(kw)
                self.first_moment = f(0.0, kw["log_mlow"], kw["log_mhigh"])
                self.n_mean = 0

            @classmethod
            def from_redshift(cls, z, dz, geometry, kw):
                o = cls(**kw)
                o.first_moment = f(z, dz, kw["log_mlow"], kw["log_mhigh"])
                return o

            def draw(self):
                return np.array([])
        self.model = MF


class Nowhere(object):
    name = "UNIFORM"

    def draw(self, n, z=None):
        return np.array([]), np.array([])


def setup(ctx, zl, zs, ang):
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    return c, lc, world.Geo(ctx, c, zl, zs, ang)


def los_kw(lo=6.0, hi=10.0, **k):
    return dict(dict(log_mlow=lo, log_mhigh=hi, LOS_normalization=1.0, m_pivot=10 ** 8), **k)


def sub_kw(lo=6.0, hi=10.0):
    return dict(log_mlow=lo, log_mhigh=hi, m_pivot=10 ** 8, power_law_index=-1.9, delta_power_law_index=0.0, sigma_sub=0.1, log_m_host=13.0,
                host_scaling_factor=0.88, redshift_scaling_factor=1.7)


def sheets(ctx, r, kw, own=False, add=True):
    """the sheets a realization without halos exports: (redshift, keyword) pairs"""
    names, z, k, num = r.lensing_quantities(add_mass_sheet_correction=add, use_class_mass_ranges=own, kwargs_mass_sheet=kw)
    z = list(z)
    ctx.check(len(names) == len(z) == len(k), "one name, redshift and keyword set per sheet")
    ctx.check(all(n == "CONVERGENCE" for n in names), "sheets of constant convergence")
    return list(zip(z, k))


def match(ctx, out, want, label):
    """same sheets; those expected to vanish may be left out"""
    out = list(out)
    for z, kappa in want:
        hit = [o for o in out if ctx.same(o[0], z)]
        if hit:
            ctx.check(len(hit) == 1, label + ": one sheet per plane")
            ctx.close(hit[0][1]["kappa"], kappa, label + ": convergence", rtol=1e-5)
            ctx.observe("kappa", hit[0][1]["kappa"])
            out.remove(hit[0])
        else:
            ctx.close(kappa, 0, label + ": no sheet is missing", atol=1e-12)
    ctx.check(not out, label + ": no other sheets")


@harness("expected mass per plane an arbitrary non-negative function of plane, thickness and mass limits; two planes (thorough: three) at any increasing redshifts before the source; scale, mass limits and redshift limits anywhere (also none); sheet limits from the caller or the class; class limits fixed or depending on redshift", max_paths=900, budget=120)
def line_of_sight(ctx):
    zs = 3.0
    c, lc, g = setup(ctx, 0.5, zs, ctx.real("angle", 0.5, 20))
    z = [ctx.real("z0", 0.01, 0.8)]
    z.append(z[0] + ctx.real("dz1", 0.01, 0.8))
    if ctx.thorough:
        z.append(z[1] + ctx.real("dz2", 0.01, 0.8))
    dz = [ctx.real("thick%d" % i, 0.01, 0.2) for i in range(len(z))]
    P = Plane(ctx, "M_los")
    own, depends = ctx.choice("class limits", [(False, False), (True, False), (True, True)])
    lo, hi = ctx.real("class mlow", 4, 7), ctx.real("class mhigh", 9, 11)
    flo = (lambda zz: lo + 0.1 * zz) if depends else lo
    o = ctx.get(LOS, "LineOfSight")(P.model, los_kw(flo, hi), Nowhere(), g, lc, z, dz)
    scale = ctx.real("scale", 0, 3)
    sl, sh = ctx.real("sheet mlow", 5, 8), ctx.real("sheet mhigh", 9, 11)
    kw = dict(kappa_scale=scale, kappa_scale_subhalos=ctx.real("other scale", 0, 3), log_mlow_sheets=sl, log_mhigh_sheets=sh)
    lim = ctx.choice("redshift limits", [(0, 0), (1, 0), (0, 1), (1, 1)])
    zmin = zmax = None
    if lim[0]:
        zmin = kw["zmin"] = ctx.real("zmin", 0, 2)
    if lim[1]:
        zmax = kw["zmax"] = ctx.real("zmax", 0, 3)
    rx, ry = ray(ctx, "cx"), ray(ctx, "cy")
    out = sheets(ctx, realization(ctx, [], lc, rx, ry, [o], geometry=g), kw, own)
    want = []
    for a, d in zip(z, dz):
        if zmin is not None and a < zmin or zmax is not None and a > zmax:
            continue
        l, h = ((flo(a) if depends else lo), hi) if own else (sl, sh)
        area = ctx.pi * (0.5 * g.cone_opening_angle * world.ARCSEC * g.rendering_scale(a) * c.D_A_z(a)) ** 2
        want.append((a, -scale * P.f(a, d, l, h) / crit_mass(c, a, zs, area)))
    match(ctx, out, want, "line of sight")
    for _, k in out:
        ctx.le(k["kappa"], 0, "line-of-sight sheets are never positive")


@harness("subhalo sheet: expected mass an arbitrary function of the limits, any lens and source redshift, scale and limits from caller or class")
def subhalos(ctx):
    zl = ctx.real("zl", 0.1, 1.5)
    zs = zl + ctx.real("dzs", 0.1, 2)
    c, lc, g = setup(ctx, zl, zs, ctx.real("angle", 0.5, 20))
    P = Plane(ctx, "M_sub")
    lo, hi = ctx.real("class mlow", 4, 7), ctx.real("class mhigh", 9, 11)
    o = ctx.get(SUB, "Subhalos")(P.model, sub_kw(lo, hi), Nowhere(), g, lc)
    scale = ctx.real("scale", 0, 3)
    sl, sh = ctx.real("sheet mlow", 5, 8), ctx.real("sheet mhigh", 9, 11)
    own = ctx.flag("class limits")
    kw = dict(kappa_scale_subhalos=scale, kappa_scale=ctx.real("other scale", 0, 3), log_mlow_sheets=sl, log_mhigh_sheets=sh)
    out = sheets(ctx, realization(ctx, [], lc, ray(ctx, "cx"), ray(ctx, "cy"), [o], geometry=g), kw, own)
    area = ctx.pi * (0.5 * g.cone_opening_angle * world.ARCSEC * g.rendering_scale(zl) * c.D_A_z(zl)) ** 2
    m = P.f(0.0, lo, hi) if own else P.f(0.0, sl, sh)
    match(ctx, out, [(zl, -scale * m / crit_mass(c, zl, zs, area))], "subhalos")


@harness("subhalo sheet from the real power-law mass function: amplitude, host mass, limits and scale anywhere; four slopes; equals the closed-form mean mass")
def subhalos_power_law(ctx):
    zl, zs = 0.5, 2.0
    c, lc, g = setup(ctx, zl, zs, 6.0)
    a = ctx.choice("slope", [-1.9, -2.0, -1.8, -2.2])
    sig, lm = ctx.real("sigma_sub", 0.001, 0.5), ctx.real("log host", 12, 14)
    kw = sub_kw(6.0, 10.0)
    kw.update(power_law_index=a, sigma_sub=sig, log_m_host=lm)
    o = ctx.get(SUB, "Subhalos")(ctx.get("pyHalo.Rendering.MassFunctions.mass_function_base", "CDMPowerLaw"), kw, Nowhere(), g, lc)
    scale = ctx.real("scale", 0, 3)
    sl = ctx.real("sheet mlow", 6, 8)
    sh = sl + ctx.real("range", 1, 3)
    out = sheets(ctx, realization(ctx, [], lc, ray(ctx, "cx"), ray(ctx, "cy"), [o], geometry=g), dict(kappa_scale_subhalos=scale, log_mlow_sheets=sl, log_mhigh_sheets=sh))
    amp = sig * (10 ** lm / 1e13) ** 0.88 * np.pi * (c.kpc_proper_per_asec(zl) * 3.0) ** 2 * (10.0 ** 8) ** (-a - 1)
    u, v = 10 ** sl, 10 ** sh
    mass = amp * (ctx.log(v) - ctx.log(u)) if a == -2.0 else amp * (v ** (a + 2) - u ** (a + 2)) / (a + 2)
    area = ctx.pi * (3.0 * world.ARCSEC * g.rendering_scale(zl) * c.D_A_z(zl)) ** 2
    match(ctx, out, [(zl, -scale * mass / crit_mass(c, zl, zs, area))], "power-law subhalos")


@harness("all populations together in three orders (also unset entries): line of sight and subhalos keep their own scale, the overdense two-halo term and the no-sheet class get none; centres on the rendering centre at each sheet's own distance; default limits 10^7..10^10 and scale 1 when nothing is given; correction switched off in either of the two ways", max_paths=900)
def combined(ctx):
    zl, zs = 0.5, 2.0
    c, lc, g = setup(ctx, zl, zs, 6.0)
    M = two_halo_patches(ctx, lc)
    PL, PS, PT, PN = (Plane(ctx, n) for n in ("M_los", "M_sub", "M_two", "M_nosheet"))
    z, dz = [0.48, 0.5, 0.9], [0.02, 0.4, 0.6]
    los = ctx.get(LOS, "LineOfSight")(PL.model, los_kw(), Nowhere(), g, lc, z, dz)
    no = ctx.get(LOS, "LineOfSightNoSheet")(PN.model, los_kw(), Nowhere(), g, lc, z, dz)
    sub = ctx.get(SUB, "Subhalos")(PS.model, sub_kw(), Nowhere(), g, lc)
    two = M.TwoHaloContribution(PT.model, los_kw(log_m_host=13.0), Nowhere(), g, lc, z, dz)
    classes = ctx.choice("classes", [[los, sub, two], [None, two, no, sub, los], [sub, no], [two, None], [None]])
    given = ctx.flag("keywords")
    s1, s2, lo, hi = (ctx.real("scale", 0, 3), ctx.real("scale sub", 0, 3), 6.5, 9.5) if given else (1.0, 1.0, 7.0, 10.0)
    kw = dict(kappa_scale=s1, kappa_scale_subhalos=s2, log_mlow_sheets=lo, log_mhigh_sheets=hi) if given else {}
    on, add = ctx.choice("enabled", [(True, True), (False, True), (True, False)])
    rx, ry = ray(ctx, "cx"), ray(ctx, "cy")
    r = realization(ctx, [], lc, rx, ry, list(classes), sheets=on, geometry=g)
    out = sheets(ctx, r, kw, add=add)
    area = lambda a: ctx.pi * (3.0 * world.ARCSEC * g.rendering_scale(a) * c.D_A_z(a)) ** 2
    want_l = [(a, -s1 * PL.f(a, d, lo, hi) / crit_mass(c, a, zs, area(a))) for a, d in zip(z, dz)] if los in classes else []
    want_s = [(zl, -s2 * PS.f(0.0, lo, hi) / crit_mass(c, zl, zs, area(zl)))] if sub in classes else []
    want = want_l + want_s if on and add else []
    # several populations share the deflector plane: compare the total per plane
    for a in z:
        tot = sum([k["kappa"] for zz, k in out if ctx.same(zz, a)], 0.0)
        ctx.close(tot, sum([k for zz, k in want if zz == a], 0.0), "total convergence of the sheets on a plane", rtol=1e-5)
        ctx.observe("kappa", tot)
    ctx.check(len(out) <= len(want), "no other sheets")
    for zz, k in out:
        ctx.close(k["ra_0"], rx.f(c.D_C_z(zz)), "x centre is the rendering centre at the sheet's distance", atol=1e-9)
        ctx.close(k["dec_0"], ry.f(c.D_C_z(zz)), "y centre is the rendering centre at the sheet's distance", atol=1e-9)


@harness("exact subtraction: up to four halos (subhalo or field, any masses) on up to three planes at any redshifts including the deflector's; bound masses for subhalos on the deflector plane", max_paths=900)
def exact(ctx):
    zl, zs = 0.5, 2.0
    c, lc, g = setup(ctx, zl, zs, ctx.real("angle", 0.5, 20))
    za, zb = ctx.real("za", 0.05, 0.45), ctx.real("zb", 0.55, 1.9)
    plan = ctx.choice("halos", [[(zl, True), (za, False), (zb, False), (zb, False)], [(za, False), (za, False)], [(zl, True), (zl, True), (zl, False), (zb, False)], [(zl, False)], []])
    hs = []
    for i, (z, s) in enumerate(plan):
        m = ctx.real("m%d" % i, 1e6, 1e10)
        hs.append(FakeHalo(0.1 * i, m, 0.1, 0.2, z, sub=s, bound=ctx.real("b%d" % i, 0, 1) * m if s else None))
    rx, ry = ray(ctx, "cx"), ray(ctx, "cy")
    r = realization(ctx, hs, lc, rx, ry, None, geometry=g)
    n, zz, k, _ = r.lensing_quantities(kwargs_mass_sheet=dict(subtract_exact_sheets=True, kappa_scale=ctx.real("scale", 0, 3)))
    zz = list(zz)
    ctx.check(len(n) == len(zz) == len(k), "equal lengths")
    out = list(zip(zz, k))[len(hs):]
    planes = []
    for z, _ in plan:
        if not any(z is p for p in planes):
            planes.append(z)
    want = []
    for p in planes:
        m = 0
        for h in hs:
            if h.z is p:
                m = m + (h._bound if (p is zl or p == zl) and h.is_subhalo else h.mass)
        area = ctx.pi * (0.5 * g.cone_opening_angle * world.ARCSEC * g.rendering_scale(p) * c.D_A_z(p)) ** 2
        want.append((p, -m / crit_mass(c, p, zs, area)))
    match(ctx, out, want, "exact subtraction")
    for a, kk in out:
        ctx.close(kk["ra_0"], rx.f(c.D_C_z(a)), "x centre", atol=1e-9)
        ctx.close(kk["dec_0"], ry.f(c.D_C_z(a)), "y centre", atol=1e-9)
