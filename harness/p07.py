"""P07 power-law number and mass moments"""
from symx.api import registry
HARNESSES, harness = registry()
UTIL = "pyHalo.Rendering.MassFunctions.util"
BASE = "pyHalo.Rendering.MassFunctions.mass_function_base"


def limits(ctx, n=2):
    l = [ctx.real("logm0", 4, 9)]
    for i in range(1, n):
        d = ctx.real("dlog%d" % i, 0.01, 4)
        l.append(l[-1] + d)
    return l


def power_integral(ctx, norm, lo, hi, p, log):
    """closed form of norm * int m^p dm"""
    if log:
        return norm * ctx.log(hi / lo)
    return norm * (hi ** (p + 1) - lo ** (p + 1)) / (p + 1)


@harness("symbolic norm in [0,1e12], limits 10^[4,9] .. 10^[4.01,13], slope any real in [-3,0] (logarithmic slopes excluded by a solver branch), moment order 0 and 1")
def analytic_general(ctx):
    f = ctx.get(UTIL, "integrate_power_law_analytic")
    a, b = limits(ctx)
    n = ctx.choice("order", [0, 1, 0.0, 1.0, 2])
    idx = ctx.real("idx", -3, 0)
    norm = ctx.real("norm", 0, 1e12)
    p = idx + n
    ctx.assume(ctx.abs(p + 1) >= 0.001)
    lo, hi = 10 ** a, 10 ** b
    got = f(norm, lo, hi, n, idx)
    ctx.observe("moment", got)
    ctx.close(got, norm * (hi ** (p + 1) - lo ** (p + 1)) / (p + 1), "closed form of the moment integral")


@harness("slopes exactly at the logarithmic point, all limits as above")
def analytic_log(ctx):
    f = ctx.get(UTIL, "integrate_power_law_analytic")
    a, b = limits(ctx)
    n, idx = ctx.choice("point", [(0, -1), (0.0, -1.0), (1, -2), (1.0, -2.0), (2, -3.0)])
    norm = ctx.real("norm", 0, 1e12)
    lo, hi = 10 ** a, 10 ** b
    got = f(norm, lo, hi, n, idx)
    ctx.observe("moment", got)
    ctx.close(got, norm * ctx.log(hi / lo), "logarithmic moment integral")


@harness("class-level moments of the unsuppressed mass function: symbolic limits, slope (fixed list and any real), normalisation; two adjacent ranges")
def class_moments(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    a, b, c = limits(ctx, 3)
    idx = ctx.choice("idx", [-1.9, -1, -2, -1.0, -2.0, -1.7, -2.05, None])
    if idx is None:
        idx = ctx.real("index", -3, -0.2)
        ctx.assume(ctx.abs(idx + 1) >= 0.001)
        ctx.assume(ctx.abs(idx + 2) >= 0.001)
    norm = ctx.real("norm", 1e-3, 1e12)
    k = ctx.real("k", 0.01, 100)
    one = C(a, b, idx, False, norm)
    two = C(b, c, idx, False, norm)
    full = C(a, c, idx, False, norm)
    scaled = C(a, b, idx, False, k * norm)
    for name, order in (("n_mean", 0), ("first_moment", 1)):
        log = (not ctx.symbolic or not hasattr(idx, "t")) and idx + order == -1
        g1, g2, gf, gs = [getattr(o, name) for o in (one, two, full, scaled)]
        ctx.observe(name, [g1, g2, gf])
        ctx.close(g1, power_integral(ctx, norm, 10 ** a, 10 ** b, idx + order, log), name + " equals the integral of the power law")
        ctx.close(g1 + g2, gf, name + " adds up over adjacent ranges")
        ctx.close(gs, k * g1, name + " is linear in the normalisation")


@harness("empty or inverted mass range: both expectations are zero")
def empty_range(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    a = ctx.real("logm0", 4, 10)
    d = ctx.real("d", 0, 3)
    idx = ctx.choice("idx", [-1.9, -1.0, -2.0])
    norm = ctx.real("norm", 0, 1e12)
    o = C(a + d, a, idx, ctx.flag("poisson"), norm)
    ctx.close(o.n_mean, 0, "no objects in an empty mass range")
    ctx.close(o.first_moment, 0, "no mass in an empty mass range")


@harness("pointwise differential mass function at any mass; suppressed variant at any turnover parameters")
def evaluate(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    idx = ctx.real("idx", -3, 0)
    norm = ctx.real("norm", 1e-3, 1e12)
    lm = ctx.real("lm", 4, 12)
    m = 10 ** lm
    o = C(5.0, 9.0, -1.9, False, norm)
    o2 = C(5.0, 9.0, -1.0, False, norm)
    for q, i in ((o, -1.9), (o2, -1.0)):
        v = q.evaluate(m)
        ctx.observe("dndm", v)
        ctx.close(v, norm * m ** i, "differential mass function is norm * m^index")


@harness("suppressed mass functions: moments equal the integral of norm m^(index+order) times the suppression (integral kept symbolic)", budget=120)
def suppressed_moments(ctx):
    kind = ctx.choice("kind", ["WDMPowerLaw", "MixedWDMPowerLaw"])
    C = ctx.get(BASE, kind)
    a, b = limits(ctx)
    idx = ctx.choice("idx", [-1.9, -1.0, -2.0])
    norm = ctx.real("norm", 1e-3, 1e12)
    mc = ctx.real("log_mc", 4, 10)
    ka, kb, kc = ctx.choice("abc", [(2.3, 0.8, -1.0), (0.5, 1.0, -1.3)])
    kw = dict(log_mc=mc, a_wdm=ka, b_wdm=kb, c_wdm=kc)
    if kind.startswith("Mixed"):
        kw["mixed_DM_frac"] = ctx.choice("frac", [0.0, 0.4])
    o = C(a, b, idx, False, norm, **kw)

    def supp(m):
        w = (1 + ka * (10 ** mc / m) ** kb) ** kc
        if "mixed_DM_frac" in kw:
            f = kw["mixed_DM_frac"]
            return (f + (1 - f) * ctx.sqrt(w)) ** 2
        return w
    for name, order in (("n_mean", 0), ("first_moment", 1)):
        ref = ctx.quad(lambda m: norm * m ** (idx + order) * supp(m), 10 ** a, 10 ** b)
        ctx.close(getattr(o, name), ref, name + " is the suppressed integral", rtol=1e-4)
    lm = ctx.real("lm", 4, 12)
    m = 10 ** lm
    ctx.close(o.evaluate(m), norm * m ** idx * supp(m), "suppressed differential mass function")
    ctx.close(o.turnover(m), supp(m), "turnover is the ratio to the unsuppressed mass function")


@harness("number drawn: the Poisson expectation or the nearest integer; expectation up to 3 (Poisson draw 0..3)")
def number_drawn(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    idx = ctx.choice("idx", [-1.9, -1.0])
    a = ctx.real("logm0", 6, 8)
    n = ctx.real("n", 0, 3)
    poisson = ctx.flag("poisson")
    # amplitude such that the expectation is n
    b = a + 2
    o = C(a, b, idx, poisson, 1.0)
    norm = n / o.n_mean
    o = C(a, b, idx, poisson, norm)
    m = o.draw()
    if poisson:
        p = [l for l in ctx.rng.log if l[0] == "poisson"]
        ctx.check(len(p) == 1, "one Poisson draw")
        ctx.close(p[0][1][0], n, "Poisson mean equals the expected number", atol=1e-9)
        ctx.close(p[0][2], len(m), "as many masses as drawn")
    else:
        ctx.le(ctx.abs(len(m) - n), 0.5, "rounded expected number", tol=1e-6)


@harness("Gaussian and delta-function populations: number from density, volume and mass; drawn number as above")
def single_mass_populations(ctx):
    G = ctx.get("pyHalo.Rendering.MassFunctions.gaussian", "Gaussian")
    D = ctx.get("pyHalo.Rendering.MassFunctions.delta_function", "DeltaFunction")
    poisson = ctx.flag("poisson")
    n = ctx.real("n", 0, 3)
    if ctx.flag("delta"):
        m = ctx.real("m", 1, 1e9)
        vol = ctx.real("vol", 1e-3, 1e6)
        o = D(m, vol, n * m / vol, poisson)
        ctx.close(o.n_mean, n, "expected number is density * volume / mass", atol=1e-12)
    else:
        mu = ctx.real("mu", 4, 8)
        s = ctx.real("sigma", 0, 1)
        o = G(n, mu, s, poisson)
        ctx.close(o.n_mean, n, "expected number is the normalisation", atol=1e-12)
    x = o.draw()
    if poisson:
        p = [l for l in ctx.rng.log if l[0] == "poisson"]
        ctx.check(len(p) == 1, "one Poisson draw")
        ctx.close(p[0][1][0], n, "Poisson mean equals the expected number", atol=1e-9)
        ctx.close(p[0][2], len(x), "as many masses as drawn")
    else:
        ctx.le(ctx.abs(len(x) - n), 0.5, "rounded expected number", tol=1e-6)
