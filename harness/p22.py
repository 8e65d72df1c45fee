"""P22 truncation radii: overdensity, splashback, Roche, mean-density, scale-radius and fixed models"""
from symx.api import registry
from harness import world, halos
from harness.p21 import colossus
from harness.p16 import rhoc
import math
HARNESSES, harness = registry()
A = "pyHalo.Halos.tidal_truncation"
KPC = 1e-3  # Mpc


def subject(ctx, kind, lc, mass, z, sub, conc, trunc):
    h = halos.make(ctx, kind, lc, 0.1, -0.2, z, mass=mass, sub=sub, conc=conc, trunc=trunc)
    return h


def overdensity(ctx, c, m, r, z):
    """mean density within r (kpc) in units of the critical density at z"""
    return m / (4 * math.pi / 3 * (r * KPC) ** 3) / rhoc(c, z)


@harness("overdensity 1 to 1e4 or the default; mass 1e4 to 1e12, redshift 0.05 to 5; direct call, field halo and subhalo (infall redshift from any infall model)")
def r_n(ctx):
    c, lc, _ = halos.lens(ctx)
    N = ctx.choice("N", [None, 1.0, 50.0, 200, 1e4, "any"])
    n = 50.0 if N is None else (ctx.real("n", 1, 1e4) if N == "any" else N)
    model = ctx.get(A, "TruncationRN")(lc, **({} if N is None else {"LOS_truncation_factor": n}))
    w = ctx.real("w", 1, 10)
    m = w * ctx.choice("mass", [1e4, 1e8, 1e11])
    how = ctx.choice("how", ["direct", "field", "subhalo"])
    if how == "direct":
        z = ctx.real("z", 0.05, 5)
        r = model.truncation_radius(m, z)
    else:
        halo = subject(ctx, "TNFW", lc, m, ctx.real("z", 0.05, 1.9) if how == "field" else 0.5, how == "subhalo", halos.Conc(ctx), model)
        r = halo.profile_args[1]
        z = halo.z_infall if how == "subhalo" else halo.z
        ctx.close(r, model.truncation_radius_halo(halo), "the profile is truncated at the model's radius")
    ctx.lt(0, r, "positive radius")
    ctx.close(overdensity(ctx, c, m, r, z), n, "mean density inside the radius is the requested overdensity", rtol=1e-6)
    ctx.observe("r", r)


@harness("peak height and splashback ratio: any positive functions of mass and redshift (of peak height and redshift); mass 1e4 to 1e13, redshift 0 to 5; direct call and field halo")
def splashback(ctx):
    import colossus.halo.splashback as sb
    c, lc, _ = halos.lens(ctx)
    nu = ctx.fn("nu", lambda m, z: 0.3 * (m / 1e8) ** 0.08 * (1 + z), lo=0.01, hi=50)
    ratio = ctx.fn("ratio", lambda v, z: 1.5 - 0.1 * v / (1 + v), lo=0.1, hi=10)
    colossus(ctx, None, nu)
    asked = []

    def model_(q, Gamma=None, nu200m=None, z=None, model=None, rspdef=None, **k):
        asked.append((q, nu200m, z, rspdef))
        return ratio(nu200m, z), True
    ctx.patch(sb, "splashbackModel", model_)
    model = ctx.get(A, "TruncationSplashBack")(lc)
    w = ctx.real("w", 1, 10)
    m = w * ctx.choice("mass", [1e4, 1e8, 1e12])
    if ctx.flag("direct"):
        z = ctx.real("z", 0.0, 5)
        r = model.truncation_radius(m, z)
    else:
        halo = subject(ctx, "TNFW", lc, m, ctx.real("z", 0.05, 1.9), False, halos.Conc(ctx), model)
        z = halo.z
        r = halo.profile_args[1]
    ctx.check(len(asked) >= 1 and all(q == "RspR200m" and d == "sp-apr-mn" for q, _, _, d in asked), "ratio of the mean apocenter to r200m")
    ctx.close(asked[0][1], nu(m * c.h, z), "peak height of the halo in little-h masses")
    ctx.close(asked[0][2], z, "at the halo's redshift")
    f = ratio(nu(m * c.h, z), z)
    ctx.close(overdensity(ctx, c, m, r, z) / c.astropy.Om(z), 200 / f ** 3, "the documented multiple of the radius enclosing 200 times the mean matter density", rtol=1e-6)
    ctx.lt(0, r, "positive radius")
    ctx.observe("r", r)


@harness("norm 0.05 to 20, the documented and other powers of mass and radius; mass 1e5 to 1e10, 3D radius 0.5 to 1000 kpc; direct call and subhalo (rounded to a parsec)")
def roche(ctx):
    c, lc, _ = halos.lens(ctx)
    p, nu = ctx.choice("powers", [(None, None), (1. / 3, 2. / 3), (1.0, 1.0), (0.5, 0.0), (0.0, 0.5)])
    norm = ctx.real("norm", 0.05, 20)
    kw = {} if p is None else {"m_power": p, "RocheNu": nu}
    if not ctx.flag("default norm"):
        kw["RocheNorm"] = norm
    else:
        norm = 1.4
    model = ctx.get(A, "TruncationRoche")(lc, **kw)
    p, nu = (1. / 3, 2. / 3) if p is None else (p, nu)
    w = ctx.real("w", 1, 10)
    m = w * ctx.choice("mass", [1e5, 1e8, 1e10])
    if ctx.flag("direct"):
        r3d = ctx.real("r3d", 0.5, 1000)
        r = model.truncation_radius(m, r3d)
    else:
        halo = subject(ctx, "TNFW", lc, m, 0.5, True, halos.Conc(ctx), model)
        r3d = halo.r3d
        r = halo.profile_args[1]
        ctx.close(r, model.truncation_radius_halo(halo), "the profile is truncated at the model's radius")
    exact = norm * (m / 1e7) ** p * (r3d / 50) ** nu
    ctx.close(r, exact, "documented law", rtol=1e-9, atol=5.00001e-4)
    ctx.le(0, r, "not negative")
    ctx.observe("r", r)


WINDOWS = [((8.0, 8.1), (0.5, 0.53)), ((11.3, 11.49), (1.02, 1.049)), ((5.01, 5.13), (0.0, 0.03))]


@harness("cold median relation tabulated from a relation bilinear in the logarithms; three windows of mass and redshift; concentration 1.2 to 60; norm 0.1 to 10; powers 3, 1, 0; scatter off or 0.01 to 0.5 with any draw", prove_ms=10000)
def mean_density(ctx):
    c, lc, _ = halos.lens(ctx)
    log = lambda x, z: 1.4 - 0.03 * x - 0.3 * z - 0.02 * x * z
    asked = colossus(ctx, lambda m, z: 10 ** log(math.log10(m / c.h), math.log10(1 + z)))
    window, power, scatter, default = ctx.choice("case", [(0, None, False, True), (0, 1.0, True, False), (1, 3.0, False, False), (2, None, True, False), (2, 0.0, False, True)])
    (x0, x1), (u0, u1) = WINDOWS[window]
    x, u = ctx.real("x", x0, x1), ctx.real("u", u0, u1)
    m, z = 10.0 ** x, 10.0 ** u - 1
    med = 10.0 ** log(x, u)
    ctx.assume(med > 1.3)  # true in every window
    norm, s = ctx.real("norm", 0.1, 10), ctx.real("s", 0.01, 0.5)
    kw = {} if power is None else {"c_power": power}
    if default:
        norm = 2.0
    else:
        kw["median_rt_over_rs"] = norm
    if scatter:
        kw["intrinsic_scatter"] = s
    model = ctx.get(A, "TruncateMeanDensity")(lc, **kw)

    class Halo(object):
        mass, z_eval = m, z
        c = ctx.real("c", 1.2, 60)
    halo = Halo()
    first = Halo()
    first.mass, first.z_eval, first.c = 1e8, 1.0, 10.0
    model.truncation_radius_halo(first)
    n0 = len(ctx.rng.log)
    r = model.truncation_radius_halo(halo)
    rs = lc.NFW_params_physical(m, halo.c, z)[1]
    expected = norm * (halo.c / med) ** (3.0 if power is None else power)
    drawn = ctx.rng.log[n0:]
    if scatter:
        ctx.check(len(drawn) == 1 and drawn[0][0] == "normal", "one Gaussian draw")
        (mu, sigma), v = drawn[0][1], drawn[0][2]
        ctx.close(mu, expected, "documented ratio of truncation to scale radius", rtol=1e-6)
        ctx.close(sigma, s * expected, "width of the scatter", rtol=1e-6)
        ctx.close(r, rs * ctx.abs(v), "scattered multiple of the scale radius", rtol=1e-6)
    else:
        ctx.check(len(drawn) == 0, "no draw without scatter")
        ctx.close(r / rs, expected, "documented ratio of truncation to scale radius", rtol=1e-6)
    ctx.check(set(asked) == {("200c", "diemer19")}, "cold relation of Diemer and Joyce")
    ctx.observe("r", r)


@harness("multiples 0.01 to 100 of the scale radius; fixed radii 1e-3 to 10; field halos and subhalos of free mass and redshift")
def simple(ctx):
    c, lc, _ = halos.lens(ctx)
    v = ctx.real("v", 0.01, 100)
    w = ctx.real("w", 1, 10)
    m = w * 1e7
    sub = ctx.flag("subhalo")
    z = 0.5 if sub else ctx.real("z", 0.05, 1.9)
    which = ctx.choice("model", ["multiple", "fixed"])
    model = ctx.get(A, "Multiple_RS")(lc, v) if which == "multiple" else ctx.get(A, "ConstantTruncationArcsec")(lc, v)
    halo = subject(ctx, "TNFW", lc, m, z, sub, halos.Conc(ctx), model)
    r = halo.profile_args[1]
    if which == "multiple":
        rs = lc.NFW_params_physical(m, halo.c, halo.z_eval)[1]
        ctx.close(r, v * rs, "fixed multiple of the scale radius")
        ctx.close(model.truncation_radius(rs), v * rs, "fixed multiple of the scale radius")
    else:
        ctx.close(r, v, "the given number")
        ctx.close(model.truncation_radius(m, z), v, "the given number")
        ctx.close(model.truncation_radius_halo(halo), v, "the given number")
    ctx.lt(0, r, "positive radius")
    ctx.observe("r", r)


PRESETS = {"TRUNCATION_R50": ("TruncationRN", 50), "TRUNCATION_R200": ("TruncationRN", 200), "TRUNCATION_RN": ("TruncationRN", None),
           "TRUNCATION_ROCHE": ("TruncationRoche", None), "TRUNCATION_ROCHE_GILMAN2020": ("TruncationRoche", "2020")}


@harness("the named overdensity and Roche models built from the keywords their name comes with, free mass and redshift or 3D radius")
def named(ctx):
    c, lc, _ = halos.lens(ctx)
    name = ctx.choice("name", sorted(PRESETS))
    cls, kw = ctx.get("pyHalo.truncation_models", "truncation_models")(name)
    ctx.check(cls is ctx.get(A, PRESETS[name][0]), "documented class")
    model = cls(lc, **kw)
    m = ctx.real("w", 1, 10) * 1e7
    if "ROCHE" in name:
        r3d = ctx.real("r3d", 0.5, 1000)
        ctx.close(model.truncation_radius(m, r3d), 1.4 * (m / 1e7) ** (1. / 3) * (r3d / 50) ** (2. / 3), "documented law", rtol=1e-9, atol=5.00001e-4)
    else:
        z = ctx.real("z", 0.05, 5)
        ctx.close(overdensity(ctx, c, m, model.truncation_radius(m, z), z), PRESETS[name][1] or 50, "documented overdensity", rtol=1e-6)
