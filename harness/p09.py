"""P09 warm-dark-matter suppression"""
from symx.api import registry
from harness import world
HARNESSES, harness = registry()
BASE = "pyHalo.Rendering.MassFunctions.mass_function_base"
PEAKS = "pyHalo.Rendering.MassFunctions.density_peaks"
CAL = [(2.3, 0.8, -1.0), (36.15, 2.5, -0.2), (1.0, 1.0, -1.3), (1.0, 1.1, -2.2)]


def pars(ctx):
    i = ctx.choice("calibration", list(range(len(CAL))) + ["free"])
    if i == "free":
        return ctx.real("a", 0, 50), ctx.real("b", 0.1, 3), ctx.real("c", -3, 0)
    return CAL[i]


def model(ctx, kind, mc, abc, frac=None, limits=(6.0, 9.0), norm=1.0, idx=-1.9):
    C = ctx.get(PEAKS if "Sheth" in kind else BASE, kind)
    a, b, c = abc
    kw = dict(log_mc=mc, a_wdm=a, b_wdm=b, c_wdm=c)
    if "Mixed" in kind:
        kw["mixed_DM_frac"] = frac
    return C(limits[0], limits[1], idx, False, norm, **kw)


def warm(ctx, m, mc, abc):
    a, b, c = abc
    return (1 + a * (10 ** mc / m) ** b) ** c


WARM = ["WDMPowerLaw", "ShethTormenTurnover"]
MIX = ["MixedWDMPowerLaw", "ShethTormenMixedWDM"]


@harness("both warm classes; four published calibrations and free coefficients a in [0,50], b in [0.1,3], c in [-3,0]; mass 10^[4,12], half-mode 10^[4,10]")
def range_and_form(ctx):
    k = ctx.choice("class", WARM)
    abc = pars(ctx)
    mc = ctx.real("log_mc", 4, 10)
    m = 10 ** ctx.real("logm", 4, 12)
    o = model(ctx, k, mc, abc)
    s = o.turnover(m)
    ctx.observe("suppression", s)
    ctx.close(s, warm(ctx, m, mc, abc), "documented functional form")
    ctx.lt(0, s, "suppression positive")
    ctx.le(s, 1, "suppression not above one")
    ctx.close(o.evaluate(m), m ** -1.9 * s, "suppressed mass function is the parent times the suppression")


@harness("two masses / two half-mode masses in the same ranges: monotone in mass and in half-mode mass; all classes", budget=120)
def monotone(ctx):
    k = ctx.choice("class", WARM + MIX)
    abc = CAL[ctx.choice("cal", list(range(len(CAL))))]
    mc = ctx.real("log_mc", 4, 10)
    lm = ctx.real("logm", 4, 12)
    f = ctx.real("frac", 0, 1) if k in MIX else None
    d = ctx.real("d", 0.001, 4)
    base = model(ctx, k, mc, abc, f).turnover(10 ** lm)
    if ctx.flag("mass"):
        ctx.le(base, model(ctx, k, mc, abc, f).turnover(10 ** (lm + d)), "suppression is weaker for larger masses")
    else:
        ctx.le(model(ctx, k, mc + d, abc, f).turnover(10 ** lm), base, "suppression is stronger for a larger half-mode mass")


@harness("mixed models: any mixing fraction in [0,1]; warm part as above", budget=120)
def mixed(ctx):
    k = ctx.choice("class", MIX)
    abc = pars(ctx)
    mc = ctx.real("log_mc", 4, 10)
    m = 10 ** ctx.real("logm", 4, 12)
    f = ctx.real("frac", 0, 1)
    w = warm(ctx, m, mc, abc)
    s = model(ctx, k, mc, abc, f).turnover(m)
    ctx.observe("suppression", s)
    ctx.close(s, (f + (1 - f) * ctx.sqrt(w)) ** 2, "documented mixed form")
    ctx.close(model(ctx, k, mc, abc, 0.0).turnover(m), w, "no cold matter gives the pure warm suppression")
    ctx.close(model(ctx, k, mc, abc, 1.0).turnover(m), 1, "only cold matter is not suppressed")
    ctx.lt(0, s, "suppression positive")
    ctx.le(s, 1, "suppression not above one")
    ctx.le(w, s, "mixed suppression not below the warm one")


@harness("mixed models: two fractions f <= g", budget=120)
def mixed_monotone(ctx):
    k = ctx.choice("class", MIX)
    abc = CAL[ctx.choice("cal", list(range(len(CAL))))]
    mc = ctx.real("log_mc", 4, 10)
    m = 10 ** ctx.real("logm", 4, 12)
    f = ctx.real("frac", 0, 1)
    g = ctx.real("frac2", 0, 1)
    ctx.assume(f <= g)
    ctx.le(model(ctx, k, mc, abc, f).turnover(m), model(ctx, k, mc, abc, g).turnover(m), "more cold matter means less suppression")


@harness("expected number and mass are integrals of the suppressed mass function over the same range (kept symbolic); with the pointwise bound they never exceed the unsuppressed ones", budget=120)
def moments(ctx):
    k = ctx.choice("class", WARM + MIX)
    abc = CAL[ctx.choice("cal", [2] if k in MIX else [0, 2])]
    mc = ctx.real("log_mc", 4, 10)
    a = ctx.real("lo", 5, 8)
    b = a + ctx.real("dlog", 0.1, 4)
    idx = ctx.choice("idx", [-1.9, -2.0])
    f = ctx.choice("frac", [0.0, 0.5]) if k in MIX else None
    o = model(ctx, k, mc, abc, f, (a, b), 1.0, idx)
    for name, n in (("n_mean", 0), ("first_moment", 1)):
        ref = ctx.quad(lambda m: m ** n * o.evaluate(m), 10 ** a, 10 ** b)
        ctx.close(getattr(o, name), ref, name + " is the integral of the suppressed mass function", rtol=1e-4)
    m = 10 ** ctx.real("logm", 4, 12)
    cold = ctx.get(BASE, "CDMPowerLaw")(a, b, idx, False, 1.0)
    ctx.le(o.evaluate(m), cold.evaluate(m), "never above the unsuppressed mass function")
    ctx.lt(0, o.evaluate(m), "positive mass function")


@harness("half-mode limits: far above the half-mode mass the suppression tends to one at the documented rate; 10^[4,10]")
def limits(ctx):
    k = ctx.choice("class", WARM)
    abc = CAL[ctx.choice("cal", [0, 2, 3])]
    mc = ctx.real("log_mc", 4, 8)
    d = ctx.real("decades", 4, 6)
    s = model(ctx, k, mc, abc).turnover(10 ** (mc + d))
    ctx.le(0.995, s, "no suppression four decades above the half-mode mass")
    s = model(ctx, k, mc, abc).turnover(10 ** (mc - d))
    ctx.le(s, 0.1, "strong suppression four decades below the half-mode mass")


@harness("named calibrations of the published suppression models; any half-mode mass and mass")
def named(ctx):
    P = ctx.get("pyHalo.mass_function_models", "preset_mass_function_models")
    ref = {"SHMF_LOVELL2020": (36.15, 2.5, -0.2), "LOVELL2020": (1.95, 0.8, -1.0), "SHMF_LOVELL2014": (1.0, 1.0, -1.3),
           "LOVELL2014": (1.0, 1.0, -1.3), "SCHIVE2016": (1.0, 1.1, -2.2), "SHMF_SCHIVE2016": (1.0, 1.1, -2.2)}
    name = ctx.choice("name", sorted(ref))
    mc = ctx.real("log_mc", 4, 10)
    C, kw = P(name, {"log_mc": mc})
    m = 10 ** ctx.real("logm", 4, 12)
    o = C(6.0, 9.0, -1.9, False, 1.0, **kw)
    ctx.close(o.turnover(m), warm(ctx, m, mc, ref[name]), "published suppression")


@harness("Stucker mapping: slope of the transfer function [-6,-1] and shape gamma [2,8]: beta is the documented inverse of the slope; the mass scales of fixed suppression invert the functional form")
def stucker(ctx):
    M = ctx.load("pyHalo.Rendering.MassFunctions.stucker")
    gam = ctx.choice("gamma", [5.0, 3.0, 8.0])
    s = ctx.real("slope", -6, -1)
    beta = M.beta_from_slope(s, gam)
    ctx.observe("beta", beta)
    f = 0.5 ** (-1 / gam) - 1
    # T = (1 + f (k/khm)^beta)^-gamma has this slope at the half-mode scale
    ctx.close(-gam * beta * f / (1 + f), s, "transfer function with this beta has the requested slope")
    a = ctx.real("a", 0.01, 100)
    b = ctx.choice("b", [2.0, 0.8, 2.5])
    c = ctx.choice("c", [-1.0, -0.2, -2.2])
    fr = ctx.real("frac", 0.05, 0.95)
    m = M._supp_mscale(a, b, c, fr)
    ctx.close((1 + (a / m) ** b) ** c, fr, "suppression at the returned mass scale equals the requested one")
