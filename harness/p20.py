"""P20 infall redshifts precede the lens and stay within the sampled range"""
from symx.api import registry
from harness import halos, world
import numpy as np
import math
HARNESSES, harness = registry()
A = "pyHalo.Halos.accretion"
# a, b, c of the mean and of the scatter as functions of -log10(m_sub / m_host)
FIT = {
    "HYBRID_INFALL": ("InfallDistributionHybrid", (3.35549949, 3.20546995, -2.91075587), (1.97880156, 4.17390702, -2.14428416)),
    "DIRECT_INFALL": ("InfallDistributionDirect", (3.3064042, 4.528511, -3.84346439), (1.94929171, 4.91504583, -2.4187402)),
    "DIRECT_INFALL_CLUSTER": ("InfallDistributionClusterDirect", (2.05705664, 9.43229827, -4.69408104), (1.60922533, 9.45120467, -2.5087969)),
    "MW 30 kpc": ("InfallDistributionDirectMilkyWay30kpc", (3.2, -3, -3), (1.8, 2.0, -2.6)),
    "MW 50 kpc": ("InfallDistributionDirectMilkyWay50kpc", (2.7, -2.0, -3.0), (1.8, 2.0, -2.6)),
    "MW 200 kpc": ("InfallDistributionDirectMilkyWay200kpc", (0.5, 2.04, -11.3861), (2.07127, 2.22591, -2.619518)),
}
TOP = 15.0


def lens(ctx, zl):
    return world.free_lens_cosmo(ctx, zl, 5.0, cosmo=world.Cosmology(ctx))


def host(model):
    return 5e14 if "CLUSTER" in model else 2e13


@harness("every fitted infall model; lens redshift up to 4; subhalo to host mass ratio from 1e-8 to 10 (calibrated 1e-5 to 10^-0.5); mean 0.01 to 6 (any for the Milky Way models) and scatter 0.05 to 3 any functions of the mass ratio; normal CDF any function with its monotonicity, saturation and inverse", prove_ms=10000)
def range_(ctx):
    model = ctx.choice("model", list(FIT))
    cls, mw = ctx.get(A, FIT[model][0]), model.startswith("MW")
    zl = ctx.real("zl", 0.01, 4)
    mh = host(model)
    mean = ctx.fn("mean", lambda r: 2.0 if not mw else 1 / (r - 0.03), lo=-1e4 if mw else 0.01, hi=1e4 if mw else 6)
    std = ctx.fn("std", lambda r: 1.2, lo=0.05, hi=3)
    lc = lens(ctx, zl)
    if mw:
        lc.setup_infall_model(cls, {"log_m_host": math.log10(mh)})
    else:
        lc.setup_infall_model(model, {"log_m_host": math.log10(mh)})
    # the fits themselves are decided below
    ctx.patch(cls, "z_inf_to_z_host_mean", staticmethod(mean) if not mw else lambda self, r: mean(r))
    ctx.patch(cls, "z_inf_to_z_host_std", staticmethod(std) if not mw else lambda self, r: std(r))
    x = ctx.real("ratio", 1e-8, 10)
    r = ctx.max(10 ** -5.0, ctx.min(10 ** -0.5, x))
    if not mw:
        ctx.assume(mean(r) <= 30 * std(r))  # shown for the fits below
    z = lc.z_accreted_from_zlens(x * 10 ** math.log10(mh))
    ctx.le(zl, z + 1e-9, "infall not after the lens redshift")
    ctx.le(z, zl + TOP + 1e-9, "infall at most the sampled range before it")
    log = ctx.rng.log
    ctx.check(len(log) == 1, "one draw per subhalo")
    kind, par, u = log[0]
    mu, sig = mean(r), std(r)
    if kind == "truncnorm":
        a, b, loc, scale = par
        ctx.close(loc, mu, "mean at the clamped mass ratio")
        ctx.close(scale, sig, "scatter at the clamped mass ratio")
        ctx.close(loc + scale * a, 0, "sampled from zero", rtol=0, atol=1e-6)
        ctx.close(loc + scale * b, TOP, "up to the largest offset", rtol=0, atol=1e-6)
        ctx.close(z - zl, u, "the draw is the offset from the lens", rtol=1e-9, atol=1e-9)
    else:
        import scipy.special
        ndtr, ndtri = [getattr(ctx.load(A) if ctx.symbolic else scipy.special, n) for n in ("ndtr", "ndtri")]
        ctx.check(kind == "uniform", "quantile of a uniform number")
        ctx.close(par[0], ndtr((0 - mu) / sig), "sampled from zero")
        ctx.close(par[1], ndtr((TOP - mu) / sig), "up to the largest offset")
        ctx.close(z - zl, mu + sig * ndtri(u), "Gaussian of the mean and scatter at the clamped mass ratio", rtol=1e-6, atol=1e-6)
    ctx.observe("z", z)


@harness("every fitted infall model; mass ratio anywhere in its calibrated range", prove_ms=10000)
def fits(ctx):
    model = ctx.choice("model", list(FIT))
    name, pm, ps = FIT[model]
    d = ctx.get(A, name)(0.5, math.log10(host(model)))
    L = ctx.real("L", 0.5, 5)
    if model.startswith("MW"):
        w = 1 + pm[1] * L ** pm[2]
        ctx.assume(w * w >= 1e-4)  # the published fit has a pole
    ctx.close(d.z_inf_to_z_host_mean(10 ** -L) * (1 + pm[1] * L ** pm[2]), pm[0], "documented mean", rtol=1e-7)
    s = d.z_inf_to_z_host_std(10 ** -L)
    ctx.close(s * (1 + ps[1] * L ** ps[2]), ps[0], "documented scatter", rtol=1e-7)
    ctx.le(0, s, "positive scatter")
    if not model.startswith("MW"):
        ctx.le(d.z_inf_to_z_host_mean(10 ** -L), 30 * s, "lower bound within 30 standard deviations of the mean")
    ctx.observe("std", s)


COUNTS = [50, 93, 125, 180, 175, 144, 120, 117, 97, 82, 52, 51, 35, 20, 9, 4, 4, 0, 1, 1]
BINS = [0.53836189, 1.37376234, 2.2091628, 3.04456325, 3.87996371, 4.71536416, 5.55076461, 6.38616507, 7.22156552, 8.05696598, 8.89236643, 9.72776689, 10.56316734, 11.39856779,
        12.23396825, 13.0693687, 13.90476916, 14.74016961, 15.57557007, 16.41097052]


@harness("tabulated Galacticus distribution: any lens redshift up to 4, any uniform number", prove_ms=10000)
def tabulated(ctx):
    zl = ctx.real("zl", 0.01, 4)
    lc = lens(ctx, zl)
    lc.setup_infall_model("GALACTICUS_2024", {})
    z = lc.z_accreted_from_zlens(ctx.choice("m", [1e6, 1e10]))
    log = ctx.rng.log
    ctx.check(len(log) == 1 and log[0][0] == "uniform", "one uniform number per subhalo")
    _, par, u = log[0]
    cdf = np.cumsum(COUNTS) / np.sum(COUNTS)
    ctx.close(par[0], cdf[0], "whole tabulated distribution")
    ctx.close(par[1], 1.0, "whole tabulated distribution")
    ctx.le(zl + BINS[0] - 0.5, z + 1e-9, "infall not after the lens redshift")
    ctx.le(z, zl + BINS[-1] - 0.5 + 1e-9, "infall at most the tabulated range before it")
    for i in range(len(cdf) - 1):
        if cdf[i + 1] > cdf[i] and i not in (15, 16, 17):
            f = (u - cdf[i]) / (cdf[i + 1] - cdf[i])
            want = zl + BINS[i] - 0.5 + f * (BINS[i + 1] - BINS[i])
            inside = ctx.is_true((u >= cdf[i]) & (u <= cdf[i + 1])) if ctx.symbolic else cdf[i] <= u <= cdf[i + 1]
            if inside:
                ctx.close(z, want, "quantile of the tabulated counts", rtol=1e-6, atol=1e-6)
    ctx.observe("z", z)


@harness("fixed infall redshifts, host mass given as a number, a logarithm or not at all, cluster host masses inside and outside 1e14 to 1e15, user-defined models, unknown names")
def setups(ctx):
    zl = ctx.real("zl", 0.05, 2)
    m = ctx.real("m", 1e5, 1e12)
    lc = lens(ctx, zl)
    case = ctx.choice("case", ["at lens", "zero", "user", "unknown", "host", "cluster", "cluster error", "default host"])
    if case == "at lens":
        lc.setup_infall_model("INFALL_ZLENS", {})
        ctx.close(lc.z_accreted_from_zlens(m), zl, "infall at the lens redshift")
    elif case == "zero":
        lc.setup_infall_model("INFALL_0", {})
        ctx.close(lc.z_accreted_from_zlens(m), 0, "infall at zero", atol=1e-12)
    elif case == "user":
        got = []

        class Mine(object):
            def __init__(self, z, **kw):
                got.append((z, kw))

            def __call__(self, ms):
                got.append(ms)
                return z2
        z2 = ctx.real("z2", 2, 9)
        lc.setup_infall_model(Mine, {"a": 3, "b": "c"})
        ctx.close(lc.z_accreted_from_zlens(m), z2, "user-defined model")
        ctx.close(got[0][0], zl, "given the lens redshift")
        ctx.check(got[0][1] == {"a": 3, "b": "c"}, "given the user's keywords")
        ctx.close(got[1], m, "given the subhalo mass")
    elif case == "unknown":
        ctx.raises(lambda: lc.setup_infall_model(ctx.choice("name", ["", "HYBRID", "direct_infall"]), {}), Exception, label="unknown model names fail")
    elif case == "cluster error":
        ctx.raises(lambda: lc.setup_infall_model("DIRECT_INFALL_CLUSTER", {"log_m_host": ctx.choice("log_m_host", [13.9, 15.1])}), Exception, label="cluster model outside its range fails")
    else:
        model = "DIRECT_INFALL_CLUSTER" if case == "cluster" else ctx.choice("model", ["DIRECT_INFALL", "HYBRID_INFALL"])
        name = FIT[model][0]
        seen = []
        ctx.patch(ctx.get(A, name), "z_inf_to_z_host_mean", staticmethod(lambda r: (seen.append(r), 2.0)[1]))
        ctx.patch(ctx.get(A, name), "z_inf_to_z_host_std", staticmethod(lambda r: 1.0))
        mh = {"cluster": 3e14, "host": 4e12, "default host": 1e13}[case]
        kw = {} if case == "default host" else {"m_host": mh} if ctx.flag("as a number") else {"log_m_host": math.log10(mh)}
        lc.setup_infall_model(model, kw)
        ms = ctx.real("ratio", 1e-4, 0.1) * mh
        lc.z_accreted_from_zlens(ms)
        ctx.close(seen[0], ms / mh, "mass ratio of the subhalo to its host", rtol=1e-7)


@harness("any lens redshift, infall redshift and age-redshift relation that decreases with redshift; drawn or set by hand; asked repeatedly; field halos", prove_ms=10000)
def elapsed(ctx):
    zl = 0.5
    c, lc, calls = halos.lens(ctx, zl)
    m = ctx.real("m", 1e5, 1e11)
    h = halos.make(ctx, ctx.choice("kind", ["NFW", "TNFW"]), lc, 0, 0, zl, m, True)
    if ctx.flag("set by hand"):
        h.set_infall_redshift(ctx.real("z_infall", 0.5, 12))
    t = h.time_since_infall
    zi = h.z_infall
    ctx.close(t, c.age(zl) - c.age(zi), "time between infall and the lens", rtol=1e-9, atol=1e-9)
    ctx.le(0, t + 1e-9, "never negative")
    ctx.close(h.time_since_infall, t, "asking again gives the same answer")
    ctx.check(len(calls) <= 1, "one draw of the infall redshift per subhalo")
