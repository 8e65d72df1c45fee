"""P33 physical densities and masses of halos describe the exported lens model"""
from symx.api import registry
from harness import halos, world
import numpy as np
import math
HARNESSES, harness = registry()
B = halos.BASE
L = "lenstronomy.LensModel.Profiles."
ZS = 2.0


class Rescaling(halos.Trunc):
    """truncation model that also changes the halo's normalisation, as the tidal models do"""

    def __init__(self, ctx, factor):
        super(Rescaling, self).__init__(ctx)
        self.factor = factor

    def truncation_radius_halo(self, halo):
        r = super(Rescaling, self).truncation_radius_halo(halo)
        halo.rescale_normalization(self.factor)
        return r


def scene(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    m = ctx.real("m", 1e5, 1e11)
    return c, lc, m


def units(c, lc, z):
    """kpc per arcsec and M_sun per square kpc at the critical surface density"""
    return c.kpc_proper_per_asec(z), lc.get_sigma_crit_lensing(z, ZS) * 1e-6


def nfw(rho, rs, r):
    x = r / rs
    return rho / (x * (1 + x) ** 2)


def cut(rt, r):
    return rt ** 2 / (rt ** 2 + r ** 2)


def enclosed(ctx, mod, cls, density):
    """enclosed mass of a profile: linear in the density, otherwise an arbitrary positive function"""
    C = ctx.get(L + mod, cls)
    real = C.mass_3d
    F = ctx.fn("mass3d_" + mod, lambda *a: real(C(), *[float(v) for v in a[:density] + (1.0,) + a[density:]]), lo=0, lo_strict=True)
    ctx.patch(C, "mass_3d", lambda self, *a: a[density] * F(*(a[:density] + a[density + 1:])))
    return F


@harness("any mass, concentration, truncation radius, rescaling by the truncation model, radius (number or array); subhalo and field halo at three redshifts", prove_ms=15000)
def truncated(ctx):
    F = enclosed(ctx, "tnfw", "TNFW", 2)
    c, lc, m = scene(ctx)
    sub, z, order = ctx.choice("case", [(True, 0.5, 0), (True, 0.5, 1), (False, 0.2, 0), (False, 1.3, 1), (True, 0.5, 2), (False, 1.3, 3)])
    f = ctx.real("factor", 0.01, 3)
    co, tr = halos.Conc(ctx), Rescaling(ctx, f)
    h = halos.make(ctx, "TNFW", lc, 0.1, 0.2, z, m, sub, conc=co, trunc=tr)
    r, r2 = ctx.real("r", 1e-3, 1e3), ctx.real("r2", 1e-3, 1e3)
    if order == 1:
        h.lenstronomy_params
    if order == 2:
        h.mass_3d(r)
    if order == 3:
        h.params_physical
    d = h.density_profile_3d(r)
    rho, rs, r200 = lc.NFW_params_physical(m, co.f(m, h.z_eval), h.z_eval)
    rt = tr.f(m, z)
    ctx.close(d, f * nfw(rho, rs, r) * cut(rt, r), "density of the rescaled truncated NFW profile")
    a = h.density_profile_3d(np.array([r, r2]))
    ctx.check(len(a) == 2, "one density per radius")
    ctx.close(a[0], d, "element by element")
    ctx.close(a[1], h.density_profile_3d(r2), "element by element")
    ctx.close(h.density_profile_3d(r, scaling=2.5), 2.5 * d, "scaled density")
    ctx.close(h.mass_3d(r), f * rho * F(r, rs, rt / rs), "mass of the rescaled truncated NFW profile")
    ctx.close(h.mass_3d("r200"), f * rho * F(r200, rs, rt / rs), "mass inside the virial radius")
    kw = h.lenstronomy_params[0][0]
    kpc, sc = units(c, lc, z)
    dens = ctx.get(L + "tnfw", "TNFW")().density_lens(r / kpc, kw["Rs"], kw["alpha_Rs"], kw["r_trunc"])
    ctx.close(h.density_profile_3d_lenstronomy(r), sc / kpc * dens, "density of the exported lens model")
    ctx.observe("d", d)


@harness("any mass, concentration, rescaling and radius; subhalo and field halo", prove_ms=15000)
def plain_nfw(ctx):
    F = enclosed(ctx, "nfw", "NFW", 2)
    c, lc, m = scene(ctx)
    sub, z = ctx.choice("case", [(True, 0.5), (False, 0.2), (False, 1.3)])
    f = ctx.real("factor", 0.01, 3)
    co = halos.Conc(ctx)
    h = halos.make(ctx, "NFW", lc, 0.1, 0.2, z, m, sub, conc=co)
    if ctx.choice("rescaled", [False, True]):
        h.rescale_normalization(f)
    else:
        f = 1.0
    r = ctx.real("r", 1e-3, 1e3)
    rho, rs, r200 = lc.NFW_params_physical(m, co.f(m, h.z_eval), h.z_eval)
    ctx.close(h.density_profile_3d(r), f * nfw(rho, rs, r), "density of the rescaled NFW profile")
    ctx.close(h.density_profile_3d(np.array([r]))[0], f * nfw(rho, rs, r), "density of the rescaled NFW profile")
    ctx.close(h.density_profile_3d(r, scaling=2.5), 2.5 * f * nfw(rho, rs, r), "scaled density")
    ctx.close(h.mass_3d(r), f * rho * F(r, rs), "mass of the rescaled NFW profile")
    ctx.close(h.mass_3d("r200"), f * rho * F(r200, rs), "mass inside the virial radius")


@harness("any density, scale, truncation and virial radius given directly, any rescaling and radius", prove_ms=15000)
def from_parameters(ctx):
    F = enclosed(ctx, "tnfw", "TNFW", 2)
    c, lc, m = scene(ctx)
    rho, rs, rv, rt = ctx.real("rho", 1e3, 1e10), ctx.real("rs", 0.01, 50), ctx.real("rv", 0.1, 500), ctx.real("rt", 0.01, 500)
    f = ctx.real("factor", 0.01, 3)
    h = ctx.get(B + "TNFWFromParams", "TNFWFromParams")(m, 3.0, 4.0, 50.0, 0.5, True, lc, {"r_trunc_kpc": rt, "rs": rs, "rhos": rho, "rv": rv, "z_infall": 1.0, "index": 1})
    if ctx.choice("rescaled", [False, True]):
        h.rescale_normalization(f)
    else:
        f = 1.0
    r = ctx.real("r", 1e-3, 1e3)
    want = f * nfw(rho, rs, r) * cut(rt, r)
    ctx.close(h.density_profile_3d(r), want, "density of the given profile")
    ctx.close(h.mass_3d(r), f * rho * F(r, rs, rt / rs), "mass of the given profile")
    ctx.close(h.mass_3d("r200"), f * rho * F(rv, rs, rt / rs), "mass inside the virial radius")
    kw = h.lenstronomy_params[0][0]
    kpc, sc = units(c, lc, 0.5)
    dens = ctx.get(L + "tnfw", "TNFW")().density_lens(r / kpc, kw["Rs"], kw["alpha_Rs"], kw["r_trunc"])
    ctx.close(h.density_profile_3d_lenstronomy(r), sc / kpc * dens, "density of the exported lens model")
    own = {"r_trunc_kpc": 2 * rt, "rs": rs, "rhos": 3 * rho, "rv": rv}
    ctx.close(h.density_profile_3d(r, own), 3 * nfw(rho, rs, r) * cut(2 * rt, r), "density of explicitly given parameters")


# exported lens model parameters of profiles whose density is that of the lens model
POS = {"center_x": 0.31, "center_y": -0.42}
LENS = {
    "CNFW": ("NFW_core", "CoreNFWHalo", ("cnfw", "CNFW"), ["Rs", "alpha_Rs", "r_core"], "density_profile_3d"),
    "TNFWC": ("NFW_core_trunc", "TNFWCHaloParametric", ("nfw_core_truncated", "TNFWC"), ["Rs", "alpha_Rs", "r_core", "r_trunc"], "density_profile_3d"),
    "TNFWC lens": ("NFW_core_trunc", "TNFWCHaloParametric", ("nfw_core_truncated", "TNFWC"), ["Rs", "alpha_Rs", "r_core", "r_trunc"], "density_profile_3d_lenstronomy"),
    "GNFW": ("generalized_nfw", "GeneralNFWFieldHalo", ("pseudo_double_powerlaw", "PseudoDoublePowerlaw"), ["Rs", "alpha_Rs", "gamma_inner", "gamma_outer"], "density_profile_3d"),
    "GALAXY": ("sis", "MassiveGalaxy", ("pseudo_double_powerlaw", "PseudoDoublePowerlaw"), ["Rs", "alpha_Rs", "gamma_inner", "gamma_outer"], "density_profile_3d_lenstronomy"),
    "GC": ("globular_cluster", "GlobularCluster", ("splcore", "SPLCORE"), ["sigma0", "r_core", "gamma"], "density_profile_3d_lenstronomy"),
}
RANGE = {"Rs": (1e-4, 10), "alpha_Rs": (1e-6, 1), "r_core": (1e-5, 5), "r_trunc": (1e-4, 50), "sigma0": (1e-6, 1)}
SLOPES = {"gamma_inner": 1.5, "gamma_outer": 3.5, "gamma": 6.0}


def exported(ctx, names, pre=""):
    kw = {n: ctx.real(pre + n, *RANGE[n]) if n in RANGE else SLOPES[n] for n in names}
    kw.update(POS)
    return kw


def halo(ctx, kind, lc, z, mod=None, cls=None):
    args = {"CNFW": {"beta": 0.2}, "GNFW": {"gamma_inner": 1.5, "gamma_outer": 3.5}, "GC": {"gamma": 6.0, "gc_size_pc": 10.0, "gc_concentration": 5.0},
            "TNFWC": {"rt_kpc": 2.0, "x_core_halo": 0.2, "mass_conservation": 1e8}, "TNFWC lens": {"rt_kpc": 2.0, "x_core_halo": 0.2, "mass_conservation": 1e8}}.get(kind, {})
    C = ctx.get(B + mod, cls)
    if kind == "GC":
        return C(1e6, 0.1, 0.2, z, lc, args, 0.5)
    if kind == "GALAXY":
        return C(halos.make(ctx, "TNFW", lc, 0.1, 0.2, z, sub=z == 0.5))
    # halos on the main lens plane are subhalos, which fell in earlier
    return C(1e8, 0.1, 0.2, None, z, z == 0.5, lc, args, halos.Plain(), halos.Plain(), 0.5)


@harness("any exported lens model arguments, any radius, subhalos and field halos; cored, cored and truncated, double power-law and globular cluster profiles", prove_ms=15000)
def lens_density(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    kind, z = ctx.choice("case", [(k, z) for k in sorted(LENS) for z in (0.5, 1.3)])
    mod, cls, prof, names, method = LENS[kind]
    kw = exported(ctx, names)
    h = halo(ctx, kind, lc, z, mod, cls)
    given = dict(kw)
    ctx.patch(ctx.get(B + mod, cls), "lenstronomy_params", property(lambda self: ([given], None)))
    r = ctx.real("r", 1e-3, 1e2)
    kpc, sc = units(c, lc, z)
    want = ctx.get(L + prof[0], prof[1])().density_lens(r / kpc, *[kw[n] for n in names])
    ctx.close(getattr(h, method)(r), sc / kpc * want, "density of the exported lens model")
    ctx.close(getattr(h, method)(r), sc / kpc * want, "density of the exported lens model, asked again")
    ctx.check(given == kw, "the exported arguments stay unchanged")
    ctx.observe("d", getattr(h, method)(r))


def collapsed(ctx, lc, z, cls="CoreCollapsedHalo"):
    C = ctx.get(B + "core_collapsed_halo", cls)
    h = C(1e8, 0.1, 0.2, None, z, z == 0.5, lc, {}, halos.Plain(), halos.Plain(), 0.5)
    inner = exported(ctx, ["Rs", "alpha_Rs", "gamma_inner", "gamma_outer"], "in_")
    outer = exported(ctx, ["Rs", "alpha_Rs", "r_trunc"], "out_")
    whole = {"Rs_inner": inner["Rs"], "Rs_outer": outer["Rs"], "alpha_Rs_inner": inner["alpha_Rs"], "alpha_Rs_outer": outer["alpha_Rs"], "r_trunc": outer["r_trunc"],
             "gamma_inner": inner["gamma_inner"], "gamma_outer": inner["gamma_outer"]}
    whole.update(POS)
    kept = (dict(inner), dict(outer), dict(whole))
    ctx.patch(C, "lenstronomy_params", property(lambda self: ([whole], None)))
    ctx.patch(C, "lenstronomy_params_split", property(lambda self: ([inner, outer], None)))
    return h, kept, (inner, outer, whole)


@harness("any lens model of a core-collapsed halo: density of the collapsed centre and of its envelope", prove_ms=15000)
def core_collapsed_density(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    z = ctx.choice("z", [0.5, 1.3])
    h, (inner, outer, _), now = collapsed(ctx, lc, z)
    r = ctx.real("r", 1e-3, 1e2)
    kpc, sc = units(c, lc, z)
    a = sc / kpc * ctx.get(L + "pseudo_double_powerlaw", "PseudoDoublePowerlaw")().density_lens(r / kpc, *[inner[n] for n in ("Rs", "alpha_Rs", "gamma_inner", "gamma_outer")])
    b = sc / kpc * ctx.get(L + "tnfw", "TNFW")().density_lens(r / kpc, *[outer[n] for n in ("Rs", "alpha_Rs", "r_trunc")])
    for again in ("", " (again)"):
        u, v = h.component_density_profile_3d(r)
        ctx.close(u, a, "density of the collapsed centre" + again)
        ctx.close(v, b, "density of the envelope" + again)
    ctx.close(h.density_profile_3d(r), a + b, "the halo is the sum of its components")
    ctx.check(now[0] == inner and now[1] == outer, "the exported arguments stay unchanged")


def radial(ctx, name, n, guess):
    """deflection of a circular lens centred on (center_x, center_y): an arbitrary function of the radius and the lens arguments"""
    A = ctx.fn(name, guess, lo=0, lo_strict=True)

    def derivatives(self, x, y, *a, **k):
        cx, cy = k.pop("center_x", 0), k.pop("center_y", 0)
        a = list(a)
        if len(a) > n:
            cx, a = a[n], a[:n] + a[n + 1:]
        if len(a) > n:
            cy, a = a[n], a[:n]
        dx, dy = x - cx, y - cy
        s = A(*([dx * dx + dy * dy] + list(a) + [k[q] for q in derivatives.names[len(a):]]))
        return dx * s, dy * s
    return A, derivatives


@harness("any exported lens model arguments, any radius: truncated NFW and core-collapsed halos", prove_ms=15000)
def deflection(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    kind = ctx.choice("kind", ["TNFW", "COLLAPSED"])
    r = ctx.real("r", 1e-4, 10)
    if kind == "TNFW":
        names = ["Rs", "alpha_Rs", "r_trunc"]
        h = halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.5)
        kw = exported(ctx, names)
        ctx.patch(type(h), "lenstronomy_params", property(lambda self: ([kw], None)))
        C = ctx.get(L + "tnfw", "TNFW")
    else:
        names = ["Rs_inner", "Rs_outer", "alpha_Rs_inner", "alpha_Rs_outer", "r_trunc", "gamma_inner", "gamma_outer"]
        h, (_, _, kw), _ = collapsed(ctx, lc, 0.5)
        C = ctx.get(L + "core_collapsed_halo", "CoreCollapsedHalo")
    A, fn = radial(ctx, "alpha_" + kind, len(names), lambda *a: 0.3 + 0.01 * len(a))
    fn.names = names
    ctx.patch(C, "derivatives", fn)
    ctx.close(h.deflection_angle(r), r * A(*([r * r] + [kw[n] for n in names])), "deflection of the exported lens model")


@harness("convergence an arbitrary combination of a constant and the squared radius; radius in kpc or the virial radius; truncated, cored and truncated, and core-collapsed subhalos and field halos; midpoint error of the radial grid allowed", prove_ms=15000)
def projected_mass(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    kind, z, rmax = ctx.choice("case", [(k, z, r) for k in ("TNFW", "TNFWC", "COLLAPSED") for z, r in ((0.5, "r200"), (1.3, 0.3))])
    k0, k1 = ctx.real("k0", 0.001, 10), ctx.real("k1", 0, 10)
    names = {"TNFW": ["Rs", "alpha_Rs", "r_trunc"], "TNFWC": ["Rs", "alpha_Rs", "r_core", "r_trunc"], "COLLAPSED": []}[kind]
    kpc, sc = units(c, lc, z)
    given = {}

    def hessian(self, x, y, *a, **k):
        given["args"] = list(a) + [k[n] for n in names[len(a):]]
        u = k0 + k1 * ((x * x + y * y) / R ** 2)
        return u * 1.25, 0 * u, 0 * u, u * 0.75

    def derivatives(self, x, y, *a, **k):
        q = (x * x + y * y) / R ** 2
        return x * (k0 + k1 * q / 2), y * (k0 + k1 * q / 2)
    if kind == "COLLAPSED":
        h, _, _ = collapsed(ctx, lc, z)
        ctx.patch(ctx.get(L + "core_collapsed_halo", "CoreCollapsedHalo"), "derivatives", derivatives)
    else:
        mod, cls, lm = {"TNFW": ("TNFW", "TNFWSubhalo" if z == 0.5 else "TNFWFieldHalo", ("tnfw", "TNFW")), "TNFWC": ("NFW_core_trunc", "TNFWCHaloParametric", ("nfw_core_truncated", "TNFWC"))}[kind]
        h = halo(ctx, kind, lc, z, mod, cls)
        kw = exported(ctx, names)
        ctx.patch(type(h), "lenstronomy_params", property(lambda self: ([kw], None)))
        ctx.patch(ctx.get(L + lm[0], lm[1]), "hessian", hessian)
    _, _, r200 = h.nfw_params
    R = (r200 if rmax == "r200" else rmax) / kpc
    got = h.mass_2d(rmax)
    ctx.close(got, math.pi * R ** 2 * (k0 + k1 / 2) * sc * kpc ** 2, "projected mass of the exported convergence", rtol=2e-4)
    if kind != "COLLAPSED":
        ctx.check(all(ctx.same(u, kw[n]) for u, n in zip(given["args"], names)), "convergence of the exported lens model")
    if kind == "COLLAPSED":
        r = np.array([0.5, 0.501, 0.502]) * R * kpc
        ctx.close(h.kappa(r)[1], k0 + k1 * 0.501 ** 2, "convergence of the exported deflection", rtol=1e-4)


@harness("any scale and truncation radius, any radius; any pair of inner and outer slopes", prove_ms=15000)
def slopes(ctx):
    T = ctx.get(B + "TNFW", "TNFWFieldHalo")
    rs, rt, r = ctx.real("rs", 0.01, 50), ctx.real("rt", 0.01, 500), ctx.real("r", 1e-3, 1e3)
    # d log rho / d log r of 1 / (x (1 + x)^2) times t^2 / (t^2 + x^2)
    x, t = r / rs, rt / rs
    want = -1 - 2 * x / (1 + x) - 2 * x ** 2 / (t ** 2 + x ** 2)
    ctx.close(T.log_profile_slope(r, rs, rt), want, "slope of a truncated NFW profile", atol=1e-9)
    g1, g2 = ctx.real("g1", 0, 2.9), ctx.real("g2", 1, 8)
    G = ctx.get(B + "generalized_nfw", "GeneralNFWFieldHalo")
    ctx.close(G.log_profile_slope(r, rs, g1, g2), -g1 - (g2 - g1) * x ** 2 / (1 + x ** 2), "slope of a double power law", atol=1e-9)


@harness("density an arbitrary running power of the radius: logarithmic slope at a number and at an array of radii", prove_ms=15000)
def numerical_slope(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    h = halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.5)
    # a running power law: the derivative in logarithms is its local exponent
    a, k, q2 = ctx.real("log amplitude", -5, 20), ctx.real("exponent", -6, 1), ctx.real("running", 0.1, 1)

    def log_density(x):
        return a + k * math.log(x) + q2 * math.log(x) ** 2

    def density(self, r, profile_args=None):
        if np.ndim(r):
            return np.array([ctx.exp(log_density(float(q))) for q in r])
        return ctx.exp(log_density(float(r)))
    ctx.patch(type(h), "density_profile_3d", density)
    r = ctx.choice("r", [0.01, 3, 40.0])
    ctx.close(h.logarithmic_profile_slope(r), k + 2 * q2 * math.log(r), "slope of a running power law", rtol=0, atol=0.01)
    rs = np.geomspace(0.1, 2.0, 7)
    s = h.logarithmic_profile_slope(rs)
    ctx.check(len(s) == 7, "one slope per radius")
    for v, x in list(zip(s, rs))[1:-1]:
        ctx.close(v, k + 2 * q2 * math.log(x), "slope of a running power law", rtol=0, atol=0.01)


@harness("projected density of a globular cluster of any mass at any radius", prove_ms=15000)
def globular_cluster(ctx):
    C = ctx.get(L + "splcore", "SPLCORE")
    F = enclosed(ctx, "splcore", "SPLCORE", 1)
    D = ctx.fn("sigma", lambda q, rc, g: 1.0 / (rc ** 2 + q), lo=0, lo_strict=True)
    ctx.patch(C, "density_2d", lambda self, x, y, rho0, r_core, gamma, center_x=0, center_y=0: rho0 * D(x * x + y * y, r_core, gamma))
    c, lc, m = scene(ctx)
    size, con, g = ctx.real("size", 1, 50), ctx.real("concentration", 1.5, 30), ctx.real("gamma", 4, 8)
    h = ctx.get(B + "globular_cluster", "GlobularCluster")(m, 0.1, 0.2, 0.5, lc, {"gamma": g, "gc_size_pc": size, "gc_concentration": con}, 0.5)
    r = ctx.real("r", 1e-5, 1)
    rc = size * 1e-3 / con
    ctx.close(h.density_profile_2d_lenstronomy(r), m / F(size * 1e-3, rc, g) * D(r * r, rc, g), "projected density of the cluster's mass inside its size")


@harness("convergence an arbitrary power of the radius, any exported lens model arguments", prove_ms=15000)
def projected_slope(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, ZS)
    names = ["Rs", "alpha_Rs", "r_core", "r_trunc"]
    z = ctx.choice("z", [0.5, 1.3])
    h = halo(ctx, "TNFWC", lc, z, "NFW_core_trunc", "TNFWCHaloParametric")
    kw = exported(ctx, names)
    a, k = ctx.real("log amplitude", -5, 5), ctx.real("exponent", -4, 0)
    given = {}

    def hessian(self, x, y, *p, **q):
        given["args"] = list(p) + [q[n] for n in names[len(p):]]
        u = np.array([ctx.exp(a + k * math.log(float(v))) for v in x])
        return u * 1.25, 0 * u, 0 * u, u * 0.75
    ctx.patch(type(h), "lenstronomy_params", property(lambda self: ([kw], None)))
    ctx.patch(ctx.get(L + "nfw_core_truncated", "TNFWC"), "hessian", hessian)
    s = h.log_slope_2d(np.array([0.1, 0.3, 0.5, 2.0]))
    ctx.check(len(s) == 4, "one slope per radius")
    for v in s:
        ctx.close(v, k, "slope of a power law", rtol=1e-6, atol=1e-6)
    ctx.check(all(ctx.same(u, kw[n]) for u, n in zip(given["args"], names)), "convergence of the exported lens model")
