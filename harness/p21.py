"""P21 concentrations: floor, median relation, scatter, warm suppression"""
from symx.api import registry
from harness import world
import numpy as np
import math
HARNESSES, harness = registry()
A = "pyHalo.Halos.concentration"
FLOOR = 1.2


class Value(object):
    def __init__(self, v):
        self.value = v


class Astropy(object):
    def __init__(self, ctx):
        self.h = ctx.real("h", 0.5, 0.9)
        rho = ctx.fn("rho_crit", lambda z: 126.0 * (0.3 * (1 + z) ** 3 + 0.7), lo=0, lo_strict=True)
        self.rho = rho
        self.critical_density = lambda z: Value(rho(z))


def colossus(ctx, f=None, nu=None):
    """replace the two colossus functions the models are built on; returns the list of (mass definition, model) asked for"""
    import colossus.halo.concentration as cc
    import colossus.lss.peaks as pk
    asked = []

    def concentration(M, mdef, z, model="diemer19", **k):
        asked.append((mdef, model))
        if np.ndim(M):
            return np.array([f(x, z) for x in M])
        return f(M, z)
    mod = ctx.load(A)
    if f is not None:
        ctx.patch(cc, "concentration", concentration)
        if hasattr(mod, "concentration"):
            ctx.patch(mod, "concentration", concentration)
    if nu is not None:
        ctx.patch(pk, "peakHeight", lambda M, z, **k: np.array([nu(x, z) for x in M]) if np.ndim(M) else nu(M, z))
    return asked


def floored(ctx, v):
    return ctx.max(v, FLOOR)


def match(ctx, got, med, sigma, entries, label):
    """got is the floored median, times the recorded lognormal draws if there are any"""
    scalar = not np.ndim(got)
    gots, meds = ([got], [med]) if scalar else (list(got), med)
    ctx.check(len(gots) == len(meds), "one concentration per mass")
    draws = []
    for kind, par, val in entries:
        for i, v in enumerate(np.ravel(np.array(val, dtype=object))):
            p, s = [q if not np.ndim(q) else np.ravel(q)[i] for q in par]
            draws.append((kind, p, s, v))
    if sigma is None:
        ctx.check(len(draws) == 0, "no random draws without scatter")
    else:
        ctx.check(len(draws) == len(meds), "one draw of the scatter per mass")
    for i, (g, m) in enumerate(zip(gots, meds)):
        if sigma is not None:
            kind, p, s, v = draws[i]
            ctx.check(kind in ("lognormal", "normal"), "Gaussian scatter in the logarithm")
            n = ((ctx.log(v) if kind == "lognormal" else v) - p) / s
            if kind == "lognormal":
                ctx.close(ctx.exp(p), m, label + ": scatter about the median", rtol=1e-9)
                ctx.close(s, sigma, label + ": width of the scatter", rtol=1e-9)
                m = v
            else:
                m = m * ctx.exp(sigma * n)
        ctx.close(g, floored(ctx, m), label, rtol=1e-9)
        ctx.le(FLOOR, g, "floor")


@harness("any amplitude 1e-3 to 100, slope, redshift exponent and evolution model, peak height any positive function of mass and redshift; scatter 0.01 to 0.5 on, off or switched off in the call; one mass or two masses", prove_ms=10000)
def peak_height(ctx):
    c = Astropy(ctx)
    nu = ctx.fn("nu", lambda m, z: 0.3 * (m / 1e8) ** 0.08 * (1 + z), lo=0.01, hi=50)
    colossus(ctx, None, nu)
    c0 = ctx.real("c0", 1e-3, 100)
    beta, zeta = ctx.choice("powers", [(0.8, -0.2), (4.0, 0.5), (0.0, 0.0), (1.0, 1.0)])
    ev = ctx.choice("evolution", ["PEAK_HEIGHT", "RHO_CRIT"])
    z = ctx.real("z", 0, 10)
    scatter = ctx.choice("scatter", ["on", "off", "off in the call"])
    s = ctx.real("s", 0.01, 0.5)
    pivot = ctx.choice("pivot", [None, 1e9])
    kw = {} if pivot is None else {"m_pivot": pivot}
    model = ctx.get(A, "ConcentrationPeakHeight")(c, c0, zeta, beta, scatter=scatter != "off", scatter_dex=s, redshift_evolution=ev, **kw)
    many = ctx.flag("two masses")
    ms = ctx.reals("m", 2 if many else 1, 1e4, 1e14)
    q = np.array(ms) if many else ms[0]
    got = model.nfw_concentration(q, z, True) if scatter == "off in the call" else model.nfw_concentration(q, z)
    med = []
    for m in ms:
        f = nu(m * c.h, 0.0) / nu(m * c.h, z) if ev == "PEAK_HEIGHT" else c.rho(z) / c.rho(0.0)
        med.append(c0 * (nu(m * c.h, z) / nu((pivot or 1e8) * c.h, z)) ** -beta * f ** zeta)
    match(ctx, got, med if many else med[0], s if scatter == "on" else None, ctx.rng.log, "power law in peak height")
    ctx.observe("c", got if not many else got[0])


@harness("the two colossus relations as any positive function of mass and redshift, evaluated directly; other mass definitions; one mass or two masses; scatter on or off", prove_ms=10000)
def direct(ctx):
    c = Astropy(ctx)
    f = ctx.fn("relation", lambda m, z: 12 * (m / 1e8) ** -0.05 / (1 + z) ** 0.5, lo=0.1, hi=300)
    asked = colossus(ctx, f)
    cls, name = ctx.choice("model", [("ConcentrationDiemerJoyce", "diemer19"), ("ConcentrationLudlow", "ludlow16")])
    mdef = ctx.choice("mdef", [None, "vir"])
    scatter = ctx.flag("scatter")
    s = ctx.real("s", 0.01, 0.5)
    model = ctx.get(A, cls)(c, scatter=scatter, scatter_dex=s, use_interpolation_table=False, **({} if mdef is None else {"mdef": mdef}))
    many = ctx.flag("two masses")
    ms = ctx.reals("m", 2 if many else 1, 1e4, 1e14)
    z = ctx.real("z", 0, 10)
    got = model.nfw_concentration(np.array(ms) if many else ms[0], z)
    med = [f(m * c.h, z) for m in ms]
    match(ctx, got, med if many else med[0], s if scatter else None, ctx.rng.log, "published relation in little-h masses")
    ctx.check(set(asked) == {(mdef or "200c", name)}, "mass definition and model")
    ctx.observe("c", got if not many else got[0])


def tabulated_case(ctx, cls, first, window, many=False):
    c = Astropy(ctx)
    c.h = 0.7
    k = ctx.choice("relation", [(1.9, -0.09, -0.4, 0.0, 0.0), (1.4, 0.03, -0.3, -0.02, 0.0), (1.9, -0.09, -0.4, 0.0, 0.01)])
    log = lambda x, z: k[0] + k[1] * x + k[2] * z + k[3] * x * z + k[4] * ((x - 8) * (x - 8) + 4 * z * z)
    tol = 1e-4 if k[4] else 1e-7  # a curved relation is reproduced to the resolution of the table only
    f = lambda m, z: 10 ** log(math.log10(m / 0.7), math.log10(1 + z))
    colossus(ctx, f)
    model = ctx.get(A, cls)(c, scatter=False)
    rest = [(3e4, 0.1), (1.5e8, 2.2), (2e11, 9.0), (2e12, 0.03), (1.1e5, 11.0)] if k[4] else []
    for m, z in list(first) + rest:
        got = model.nfw_concentration(m, z)
        ctx.close(got, max(FLOOR, f(m * 0.7, z)), "earlier evaluation", rtol=3 * tol)
    if k[4]:
        return  # the windows below are for relations the table reproduces exactly
    (x0, x1), (u0, u1) = window
    x, u = ctx.real("x", x0, x1), ctx.real("u", u0, u1)
    m, z = 10.0 ** x, 10.0 ** u - 1
    ctx.assume(10.0 ** log(x, u) > 1.3)  # true in every window
    got = model.nfw_concentration(np.array([m]) if many else m, z)
    got = got[0] if many else got
    ctx.close(ctx.log10(got), ctx.max(log(x, u), math.log10(FLOOR)), "tabulated relation", rtol=1e-7, atol=1e-7)
    ctx.le(FLOOR, got, "floor")
    ctx.observe("c", got)


LOW, MID, HIGH = ((5.01, 5.13), (0.0, 0.03)), ((8.0, 8.1), (0.5, 0.53)), ((11.3, 11.49), (1.02, 1.049))
HEAVY, LIGHT, EARLY = ((12.05, 12.2), (0.01, 0.03)), ((3.6, 3.7), (0.4, 0.42)), ((9.3, 9.4), (1.1, 1.13))
CASES = [([(1e8, 0.5)], LOW), ([(1e8, 0.5)], MID), ([(1e8, 0.5)], HIGH), ([(1e8, 0.5), (3e12, 0.5)], HEAVY), ([(1e8, 0.5), (3e12, 0.5)], LOW), ([(4e14, 12.0)], HEAVY), ([(4e14, 12.0)], EARLY),
         ([(1e8, 0.5), (3e3, 1.0), (1e7, 13.0)], LIGHT), ([(1e8, 0.5), (3e3, 1.0), (1e7, 13.0)], EARLY), ([(1e8, 0.5), (3e3, 1.0), (1e7, 13.0), (1e5, 1.0)], MID)]


@harness("tabulated median of both relations: after up to four earlier evaluations (inside the default table, beyond its masses, beyond its redshifts); masses 4e3 to 1e12 and redshifts up to 12.5 in windows that span two or three cells each; relation bilinear in the logarithms", prove_ms=10000)
def table(ctx):
    first, window = ctx.choice("case", CASES)
    cls, many = ctx.choice("model", [("ConcentrationDiemerJoyce", False), ("ConcentrationLudlow", True)])
    tabulated_case(ctx, cls, first, window, many)


def cold(ctx):
    """a user-defined cold relation, any function of mass and redshift"""
    f = ctx.fn("cold", lambda m, z: 12 * (m / 1e8) ** -0.05 / (1 + z) ** 0.5, lo=FLOOR, hi=300)
    made = []

    class Cold(object):
        def __init__(self, cosmo, **kw):
            made.append((cosmo, kw))

        def nfw_concentration(self, m, z):
            return np.array([f(x, z) for x in m]) if np.ndim(m) else f(m, z)
    return f, Cold, made


@harness("polynomial and hyperbolic suppression of any cold relation at least the floor; half-mode mass 1e3 to 1e10; one mass or two masses; redshift up to 10", prove_ms=10000)
def warm(ctx):
    f, Cold, made = cold(ctx)
    lmc = ctx.real("log_mc", 3, 10)
    many = ctx.flag("two masses")
    ws = ctx.reals("w", 2 if many else 1, 1e-5, 1e6)
    ms = [10 ** lmc * w for w in ws]
    z = ctx.real("z", 0, 10)
    scatter = many
    common = dict(concentration_cdm_class=Cold, log_mc=lmc, scatter=scatter, scatter_dex=0.13)
    given = ctx.choice("kwargs", [None, {}, {"scatter": True, "scatter_dex": 0.3}])
    if given is not None:
        common["kwargs_cdm"] = dict(given)
    kind = ctx.choice("kind", ["polynomial", "polynomial, fixed", "hyperbolic"])
    if kind == "hyperbolic":
        a, b = ctx.real("a", -1, 2), ctx.real("b", 0.2, 2)
        model = ctx.get(A, "ConcentrationWDMHyperbolic")("cosmo", a=a, b=b, **common)
        sup = lambda w: 0.5 * (1 + ctx.tanh((ctx.log10(w) - a) / (2 * b)))
        most = 1.0
    else:
        sc = ctx.real("c_scale", 0, 100)
        p, q = ctx.choice("powers", [(-0.17, 1.0), (-0.42, 1.62), (0.0, 1.0), (-1.0, 2.0)])
        evolve = kind == "polynomial"
        model = ctx.get(A, "ConcentrationWDMPolynomial")("cosmo", c_scale=sc, c_power=p, c_power_inner=q, **common, **({} if evolve else {"mc_suppression_redshift_evolution": False}))
        most = (1 + z) ** (0.026 * z - 0.04) if evolve else 1.0
        sup = lambda w: most * (1 + sc * (1 / w) ** q) ** p
    if ctx.choice("question", ["suppression", "concentration"]) == "suppression":
        for m, w in zip(ms, ws):
            s = model.suppression(m, z)
            ctx.close(s, sup(w), "documented suppression", rtol=1e-9)
            ctx.le(s, most * (1 + 1e-9), "never above the cold relation apart from the mild redshift evolution")
        return
    s = ctx.reals("s", len(ms), 0, 1.2)
    ctx.patch(type(model), "suppression", lambda self, m, z: np.array(s) if np.ndim(m) else s[0])
    got = model.nfw_concentration(np.array(ms) if many else ms[0], z)
    for m, x, g in zip(ms, s, got if many else [got]):
        ctx.close(g, floored(ctx, f(m, z) * x), "cold relation times the suppression", rtol=1e-9)
        ctx.le(FLOOR, g, "floor")
    ctx.check(len(made) == 1 and made[0][0] == "cosmo", "one cold relation with the same cosmology")
    want = {"scatter": scatter, "scatter_dex": 0.13}
    want.update(given or {})
    ctx.check(made[0][1] == want, "scatter settings reach the cold relation unless set there")


@harness("two models in a row with default and explicit settings of the cold relation")
def separate(ctx):
    f, Cold, made = cold(ctx)
    cls = ctx.choice("class", ["ConcentrationWDMHyperbolic", "ConcentrationWDMPolynomial"])
    extra = dict(a=0.4, b=0.6) if "Hyper" in cls else {}
    C = ctx.get(A, cls)
    mine = {}
    kws = [{"kwargs_cdm": mine} if ctx.flag("own settings %d" % i) else {} for i in (0, 1)]
    on = [ctx.flag("scatter %d" % i) for i in (0, 1)]
    for i in (0, 1):
        C("cosmo", Cold, 7.0, scatter=on[i], scatter_dex=0.1 + i, **extra, **kws[i])
    for i in (0, 1):
        ctx.check(made[i][1] == {"scatter": on[i], "scatter_dex": 0.1 + i}, "each model follows its own scatter settings")
    ctx.check(mine == {}, "settings passed in are left alone")


@harness("warm relation of Ludlow et al.: half-mode mass 1e4 to 1e10, slope -6 to 0, redshift up to 8, any cold relation; fit coefficients any functions of the clamped parameters")
def ludlow_wdm(ctx):
    c = Astropy(ctx)
    c.h = 0.7
    C = ctx.get(A, "ConcentrationLudlowWDM")
    f = ctx.fn("relation", lambda m, z: 12 * (m / 1e8) ** -0.05 / (1 + z) ** 0.5, lo=0.5, hi=300)
    for n in ("ConcentrationLudlow",):
        ctx.patch(ctx.get(A, n), "nfw_concentration", lambda self, m, z: np.array([f(x, z) for x in m]) if np.ndim(m) else f(m, z))
    a, b = ctx.real("a", -0.05, 0.6), ctx.real("b", 0.4, 1.1)
    seen = []
    ctx.patch(C, "interp_a", staticmethod(lambda x: (seen.append(x), np.array([a]))[1]))
    ctx.patch(C, "interp_b", staticmethod(lambda x: (seen.append(x), np.array([b]))[1]))
    outside = ctx.choice("outside", ["nothing", "mass", "slope", "redshift", "all"])
    lmc = ctx.real("log_mc", *((6, 8) if outside not in ("mass", "all") else (4, 10)))
    d = ctx.real("slope", *((-4, -1) if outside not in ("slope", "all") else (-6, 0)))
    z = ctx.real("z", 0, 4 if outside not in ("redshift", "all") else 8)
    model = C(c, lmc, d)
    many = ctx.flag("two masses") if outside == "mass" else False
    ws = ctx.reals("w", 2 if many else 1, 1e-4, 1e5)
    ms = [10 ** lmc * w for w in ws]
    if ctx.choice("question", ["suppression", "concentration"]) == "suppression":
        for m, w in zip(ms, ws):
            s = model.suppression(m, z)
            ctx.close(s, 0.5 * (1 + ctx.tanh((ctx.log10(w) - a) / (2 * b))), "documented suppression", rtol=1e-9)
            ctx.le(s, 1.0, "never above the cold relation")
        for i, v in enumerate([ctx.max(1.0, ctx.min(4.0, -d)), ctx.max(6.0, ctx.min(8.0, lmc)), ctx.min(4.0, z)]):
            for q in seen:
                ctx.close(q[i], v, "fit taken inside its calibrated range", rtol=1e-12, atol=1e-12)
        ctx.raises(lambda: C(c, lmc, ctx.real("bad", 0.001, 3)), Exception, label="positive slopes are refused")
        return
    s = ctx.reals("s", len(ms), 0, 1)
    ctx.patch(C, "suppression", lambda self, m, z: np.array(s) if np.ndim(m) else s[0])
    got = model.nfw_concentration(np.array(ms) if many else ms[0], z)
    for m, x, g in zip(ms, s, got if many else [got]):
        ctx.close(g, floored(ctx, f(m, z) * x), "cold relation times the suppression", rtol=1e-9)
        ctx.le(FLOOR, g, "floor")


@harness("mass bins: contiguous, with a gap, one bin; any mass; own amplitude and slope per bin", prove_ms=10000)
def bins(ctx):
    c = Astropy(ctx)
    nu = ctx.fn("nu", lambda m, z: 0.3 * (m / 1e8) ** 0.08 * (1 + z), lo=0.01, hi=50)
    colossus(ctx, None, nu)
    edges = ctx.choice("bins", [[[6.0, 8.0], [8.0, 10.0]], [[6.0, 7.0], [8.0, 9.0]], [[5.0, 10.0]]])
    n = len(edges)
    c0 = ctx.reals("c0", n, 0.5, 60)
    beta, zeta = [0.8, 1.5][:n], [-0.2, 0.3][:n]
    ev = ctx.choice("evolution", [None, "PEAK_HEIGHT"])
    s = ctx.real("s", 0.01, 0.5)
    scatter = ctx.flag("scatter")
    model = ctx.get(A, "BinnedHaloMass")(c, edges, c0, beta, zeta, scatter=scatter, scatter_dex=s, **({} if ev is None else {"redshift_evolution": ev}))
    m, z = ctx.real("m", 1e4, 1e12), ctx.real("z", 0, 5)
    inside = bool(m >= 10 ** edges[0][0]) and bool(m < 10 ** edges[-1][1])
    ask = lambda: model.nfw_concentration(m, z)
    if not inside:
        ctx.raises(ask, ValueError, label="masses outside every bin are refused")
        return
    got = ask()
    meds = []
    for i in range(n):
        f = nu(m * c.h, 0.0) / nu(m * c.h, z) if ev else c.rho(z) / c.rho(0.0)
        meds.append(c0[i] * (nu(m * c.h, z) / nu(1e8 * c.h, z)) ** -beta[i] * f ** zeta[i])
    which = [i for i in range(n) if bool(m >= 10 ** edges[i][0]) and bool(m < 10 ** edges[i][1])]
    if which:
        match(ctx, got, meds[which[0]], s if scatter else None, ctx.rng.log, "relation of the bin that holds the mass")
        ctx.observe("c", got)


@harness("every named relation; settings given by the user; formation-history slopes 1 to 5")
def presets(ctx):
    P = ctx.get("pyHalo.concentration_models", "preset_concentration_models")
    name = ctx.choice("name", ["DIEMERJOYCE19", "LUDLOW2016", "PEAK_HEIGHT_POWERLAW", "BINNED_HALO_MASS", "WDM_HYPERBOLIC", "WDM_POLYNOMIAL", "BOSE2016", "BOSE2016_LUDLOW", "LAROCHE2022", "LUDLOW_WDM",
                                "FROM_FORMATION_HISTORY", "CONSTANT", "CUSTOM", "CUSTOM without the method", "NONE"])
    want = {"DIEMERJOYCE19": "ConcentrationDiemerJoyce", "LUDLOW2016": "ConcentrationLudlow", "PEAK_HEIGHT_POWERLAW": "ConcentrationPeakHeight", "BINNED_HALO_MASS": "BinnedHaloMass",
            "WDM_HYPERBOLIC": "ConcentrationWDMHyperbolic", "WDM_POLYNOMIAL": "ConcentrationWDMPolynomial", "BOSE2016": "ConcentrationWDMPolynomial", "BOSE2016_LUDLOW": "ConcentrationWDMPolynomial",
            "LAROCHE2022": "ConcentrationWDMPolynomial", "LUDLOW_WDM": "ConcentrationLudlowWDM", "FROM_FORMATION_HISTORY": "ConcentrationWDMHyperbolic", "CONSTANT": "ConcentrationConstant"}
    if name == "NONE":
        ctx.raises(lambda: P(ctx.choice("bad", ["", "BOSE", "ludlow2016"])), Exception, label="unknown names are refused")
        return
    user = {"scatter": False, "log_mc": 7.0}
    if name.startswith("CUSTOM"):
        class Own(object):
            if name == "CUSTOM":
                def nfw_concentration(self, m, z):
                    return 5.0
        user["custom_class"] = Own
        if name != "CUSTOM":
            ctx.raises(lambda: P("CUSTOM", user), Exception, label="custom classes need the method")
            return
        cls, kw = P(name, user)
        ctx.check(cls is Own and kw == {"scatter": False, "log_mc": 7.0}, "custom class with the user's settings")
        ctx.check(user["custom_class"] is Own, "settings passed in are left alone")
        return
    d = ctx.real("slope", 1.0, 5)
    if name == "FROM_FORMATION_HISTORY":
        user["dlogT_dlogk"] = d
    before = dict(user)
    cls, kw = P(name, user)
    ctx.check(list(user) == list(before), "settings passed in are left alone")
    ctx.check(cls is ctx.get(A, want[name]), "the class of that name")
    ctx.check(kw["scatter"] is False and kw["log_mc"] == 7.0, "the user's settings are kept")
    bose = {"c_scale": 60.0, "c_power": -0.17, "c_power_inner": 1.0, "mc_suppression_redshift_evolution": False}
    published = {"BOSE2016": bose, "BOSE2016_LUDLOW": bose, "LAROCHE2022": {"c_scale": 21.42, "c_power": -0.42, "c_power_inner": 1.62}}.get(name)
    if published:
        ctx.check(all(kw[k] == v for k, v in published.items()), "published parameters")
        ctx.check(kw["concentration_cdm_class"] is ctx.get(A, "ConcentrationLudlow" if "LUDLOW" in name else "ConcentrationDiemerJoyce"), "published cold relation")
    if name == "FROM_FORMATION_HISTORY":
        ctx.check("dlogT_dlogk" not in kw, "only parameters the class takes")
        ctx.close(kw["a"], 0.75 * (0.7 / d) ** 0.4, "a from the slope", rtol=1e-9)
        ctx.close(kw["b"], 0.94 * ctx.abs(math.log(2.36) / ctx.log(d + 0.6)) ** 0.7, "b from the slope", rtol=1e-9)


@harness("constant concentration")
def constant(ctx):
    v = ctx.real("c", 0.1, 1e6)
    model = ctx.get(A, "ConcentrationConstant")("cosmo", v)
    ctx.close(model.nfw_concentration(ctx.real("m", 1e4, 1e14), ctx.real("z", 0, 10)), v, "the given value")
