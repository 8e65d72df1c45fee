"""P08 drawn masses stay within the limits and follow the mass function"""
from symx.api import registry
HARNESSES, harness = registry()
BASE = "pyHalo.Rendering.MassFunctions.mass_function_base"
PEAKS = "pyHalo.Rendering.MassFunctions.density_peaks"


def limits(ctx):
    a = ctx.real("logm0", 4, 9)
    return a, a + ctx.real("dlog", 0.01, 4)


def with_number(ctx, C, a, b, idx, n, *args, **kw):
    """an instance expecting n objects"""
    one = ctx.get(BASE, "CDMPowerLaw")(a, b, idx, False, 1.0)
    return C(a, b, idx, False, n / one.n_mean, *args, **kw)


def uniforms(ctx):
    return [l for l in ctx.rng.log if l[0] == "uniform"]


@harness("any random number in [0,1), limits 10^[4,9]..10^[4.01,13], slopes {-1.9,-2,-1.5,-1,-0.5,-2.7}; 1 or 2 draws")
def draw_follows_cdf(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    a, b = limits(ctx)
    idx = ctx.choice("idx", [-1.9, -2.0, -1.5, -1.0, -1, -0.5, -2.7])
    n = ctx.choice("n", [1, 2])
    o = with_number(ctx, C, a, b, idx, n)
    m = o.draw()
    ctx.check(len(m) == n, "as many masses as expected objects")
    us = uniforms(ctx)
    ctx.check(len(us) == 1, "one uniform number per mass")
    u = [x for x in us[0][2]]
    ctx.check(len(u) == n, "an independent uniform number for each mass")
    mL, mH = 10 ** a, 10 ** b
    p = idx + 1
    for i in range(n):
        ctx.observe("mass", m[i])
        ctx.le(mL, m[i], "mass not below the minimum")
        ctx.le(m[i], mH, "mass not above the maximum")
        # either orientation of the inverse CDF samples the same distribution
        if p == 0:
            x, y, hi = m[i] / mL, mL * ctx.exp(ctx.log(mH / mL) * u[i]) / mL, mH / m[i]
            ctx.eq_or([(ctx.log(m[i] / mL), u[i] * ctx.log(mH / mL)), (ctx.log(mH / m[i]), u[i] * ctx.log(mH / mL))],
                      "the fraction of mass-function objects below the drawn mass is uniform")
        else:
            num = m[i] ** p - mL ** p
            den = mH ** p - mL ** p
            ctx.eq_or([(m[i] ** p, mL ** p + u[i] * den), (m[i] ** p, mH ** p - u[i] * den)],
                      "the fraction of mass-function objects below the drawn mass is uniform")


@harness("any slope in [-3,0] away from -1, limits 10^[4,9]..10^[4.01,13]: draws follow the inverse CDF of the power law")
def draw_any_slope(ctx):
    C = ctx.get(BASE, "CDMPowerLaw")
    a, b = limits(ctx)
    idx = ctx.real("index", -3, 0)
    ctx.assume(ctx.abs(idx + 1) >= 0.01)
    ctx.rng.max_size = 4
    o = C(a, b, idx, True, 1.0)
    o.n_mean = ctx.real("n", 0.1, 3)
    m = o.draw()
    us = [l for l in ctx.rng.log if l[0] == "uniform"]
    p = idx + 1
    mL, mH = 10 ** a, 10 ** b
    for i in range(len(m)):
        ctx.observe("mass", m[i])
        den = mH ** p - mL ** p
        u = us[0][2][i]
        ctx.eq_or([(m[i] ** p, mL ** p + u * den), (m[i] ** p, mH ** p - u * den)],
                  "the fraction of mass-function objects below the drawn mass is uniform")


SUPP = dict(log_mc=7.5, a_wdm=2.3, b_wdm=0.8, c_wdm=-1.0)


@harness("suppressed draws (pure warm and mixed): parent number 1..3 objects, any random numbers, any turnover mass: keeps exactly the parent masses whose own uniform number is below the suppression, in order", budget=150)
def thinning(ctx):
    kind = ctx.choice("kind", ["WDMPowerLaw", "MixedWDMPowerLaw"])
    C = ctx.get(BASE, kind)
    a, b = limits(ctx)
    idx = ctx.choice("idx", [-1.9, -1.0])
    n = ctx.choice("n", [1, 2, 3] if ctx.thorough else [1, 2])
    kw = dict(SUPP, log_mc=ctx.real("log_mc", 4, 10))
    if kind.startswith("Mixed"):
        kw["mixed_DM_frac"] = ctx.real("frac", 0, 1)
    o = with_number(ctx, C, a, b, idx, n, **kw)
    m = [x for x in o.draw()]
    us = uniforms(ctx)
    ctx.check(len(us) == 2, "one acceptance draw")
    accept = [x for x in us[1][2]]
    ctx.check(len(accept) == n, "an independent acceptance number for each mass")
    ctx.rng.feed = [x for x in us[0][2]]
    parent = [x for x in with_number(ctx, ctx.get(BASE, "CDMPowerLaw"), a, b, idx, n).draw()]
    ctx.check(len(parent) == n, "parent population drawn from the unsuppressed mass function with its own number")
    k = 0
    for p, u in zip(parent, accept):
        w = (1 + kw["a_wdm"] * (10 ** kw["log_mc"] / p) ** kw["b_wdm"]) ** kw["c_wdm"]
        if "mixed_DM_frac" in kw:
            f = kw["mixed_DM_frac"]
            w = (f + (1 - f) * ctx.sqrt(w)) ** 2
        kept = k < len(m) and ctx.same(m[k], p)
        if kept:
            k += 1
            ctx.lt(u, w, "an object is kept only when its random number is below the suppression")
        else:
            ctx.le(w, u, "an object is removed only when its random number is not below the suppression")
    ctx.check(k == len(m), "only parent objects are kept, in order, each at most once")


@harness("empty ranges and empty draws return no masses; mass range inverted or equal")
def empty(ctx):
    kind = ctx.choice("kind", ["CDMPowerLaw", "WDMPowerLaw", "MixedWDMPowerLaw"])
    C = ctx.get(BASE, kind)
    kw = {}
    if kind != "CDMPowerLaw":
        kw = dict(SUPP)
    if kind.startswith("Mixed"):
        kw["mixed_DM_frac"] = 0.3
    a, b = limits(ctx)
    poisson = ctx.flag("poisson")
    o = C(a, b, -1.9, poisson, 0.0, **kw)
    m = o.draw()
    ctx.check(len(m) == 0, "nothing is drawn when nothing is expected")


@harness("delta-function and log-normal populations: masses are the single mass, or 10 to an independent normal draw of the given mean and width; 0..3 objects")
def single_mass(ctx):
    G = ctx.get("pyHalo.Rendering.MassFunctions.gaussian", "Gaussian")
    D = ctx.get("pyHalo.Rendering.MassFunctions.delta_function", "DeltaFunction")
    n = ctx.choice("n", [0, 1, 3])
    poisson = ctx.flag("poisson")
    if ctx.flag("delta"):
        M = ctx.real("m", 1, 1e9)
        o = D(M, 1.0, n * M, poisson)
        for x in o.draw():
            ctx.close(x, M, "every object has the single mass")
    else:
        mu = ctx.real("mu", 4, 8)
        s = ctx.real("sigma", 0, 0.5)
        o = G(n, mu, s, poisson)
        x = o.draw()
        if len(x):
            g = [l for l in ctx.rng.log if l[0] == "normal"]
            ctx.check(len(g) == 1 and len(g[0][2]) == len(x), "an independent normal number for each mass")
            ctx.close(g[0][1][0], mu, "mean of the log mass")
            ctx.close(g[0][1][1], s, "width of the log mass", atol=1e-12)
            for xi, gi in zip(x, g[0][2]):
                ctx.close(xi, 10 ** gi, "mass is 10 to the drawn value")
