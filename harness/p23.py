"""P23 tidal mass loss: calibrated fits, density transfer, truncation radius from the bound mass, one bound mass per subhalo"""
from symx.api import registry
from harness import world, halos
import numpy as np
import fractions
import functools
import math
HARNESSES, harness = registry()
D = "pyHalo.Halos.galacticus_truncation."
I = D + "interp_mass_loss"
F = D + "transfer_function_density_profile"
A = "pyHalo.Halos.tidal_truncation"
L2 = math.log10(2)


class Fit(object):
    """one calibrated fit: class, table module and names, grid, accepted range of (elapsed time or redshift, log10 c, host concentration)"""

    def __init__(self, cls, mod, a, b, tmax, cmax, host, accept_t=None, accept_host=None, **kw):
        self.cls, self.mod, self.a, self.b, self.kw = cls, mod, a, b, kw
        self.grid = (np.linspace(0, tmax, 15), np.linspace(L2, math.log10(cmax), 15), np.linspace(host[0], host[1], 15))
        self.t = accept_t or (0.0, tmax)
        self.c = (L2, math.log10(cmax))
        self.h = accept_host or host


FITS = {"time": Fit("InterpGalacticus", "johnsonSUparams", "a_fit", "b_fit", 8.1, 384, (4.0, 9.0), accept_host=(4.0, 8.0)),
        "redshift": Fit("InterpGalacticusZinfall", "johnsonSUparams", "a_fit_zinfall", "b_fit_zinfall", 8.1, 384, (4.0, 9.0), accept_t=(0.001, 9.5), accept_host=(4.0, 8.0))}
for r in (30, 50, 200):
    FITS["MW%d" % r] = Fit("InterpGalacticusMW", "johnsonSUparams_MW_rmax%dkpc" % r, "a_fit", "b_fit", 12.9, 128, (6.0, 12.0), rmax=r)


def sample(ctx, f, logc, t, host, again=None):
    """one evaluation; again: the random numbers of an earlier one"""
    n = len(ctx.rng.log)
    if again is not None:
        ctx.rng.feed = list(again)
    out = f(logc, t, host)
    return out, [v for _, _, v in ctx.rng.log[n:]]


@harness("every fit at knots of its table (first, last and middle ones in each direction), every draw", prove_ms=10000)
def fit_knots(ctx):
    fit = FITS[ctx.choice("fit", sorted(FITS))]
    f = ctx.get(I, fit.cls)(**fit.kw)
    i, j, k = ctx.choice("knot", [(1, 0, 0), (14, 14, 10), (7, 3, 5), (2, 13, 1), (5, 5, 9), (13, 1, 3)])
    a = np.array(ctx.get(D + fit.mod, fit.a)).reshape(15, 15, 15)[i, j, k]
    b = np.array(ctx.get(D + fit.mod, fit.b)).reshape(15, 15, 15)[i, j, k]
    t, logc, host = fit.grid[0][i], fit.grid[1][j], fit.grid[2][k]
    if not fit.h[0] <= host <= fit.h[1]:
        return
    n0 = len(ctx.rng.log)
    out = f(float(logc), float(t), float(host))
    drawn = ctx.rng.log[n0:]
    ctx.check(len(drawn) == 1, "one random number per prediction")
    kind, par, v = drawn[0]
    ctx.le(out, 0, "never more than the infall mass")
    if kind == "normal":
        n = (v - par[0]) / par[1]
        ctx.close(out, ctx.min(ctx.sinh((n - a) / b), 0), "Johnson SU deviate of the tabulated parameters", rtol=1e-7, atol=1e-9)
    else:
        ctx.close(out, ctx.min(np.ravel(np.array(v, dtype=object))[0], 0), "Johnson SU deviate", rtol=1e-7)
        ctx.close(par[0], a, "tabulated parameter a", rtol=1e-7)
        ctx.close(par[1], b, "tabulated parameter b", rtol=1e-7)
    ctx.observe("f", out)


@harness("every fit with one input beyond either end of its accepted range by any amount up to ten times the range, the others anywhere in a narrow window inside; same random number at the end of the range", prove_ms=10000)
def fit_edges(ctx):
    name = ctx.choice("fit", ["time", "redshift", "MW30", "MW200"])
    fit = FITS[name]
    f = ctx.get(I, fit.cls)(**fit.kw)
    which = ctx.choice("input", ["t", "c", "h"])
    lo, hi = getattr(fit, which)
    if which == "h" and name in ("time", "redshift"):
        hi = 9.0  # clamped at 8 or at the end of the table
    up = ctx.flag("above")
    w = ctx.real("beyond", 1e-9, 10) * (hi - lo)
    t, c, h = [x[0] + 0.41 * (x[1] - x[0]) for x in (fit.t, fit.c, fit.h)]
    t = t + ctx.real("dt", 0, 0.05) if which != "t" else t
    base = {"t": t, "c": c, "h": h}
    edge, out = dict(base), dict(base)
    edge[which] = hi if up else lo
    out[which] = hi + w if up else lo - w
    ve, n = sample(ctx, f, edge["c"], edge["t"], edge["h"])
    vo, _ = sample(ctx, f, out["c"], out["t"], out["h"], again=n)
    ctx.close(vo, ve, "value at the edge of the accepted range", rtol=1e-9, atol=1e-12)
    ctx.le(vo, 0, "never more than the infall mass")
    ctx.observe("f", vo)


@harness("the fit of Keeley et al. at knots of its tables and anywhere outside or inside them, every draw", prove_ms=10000)
def keeley_fit(ctx):
    f = ctx.get(I, "InterpGalacticusKeeley24")()
    mean = np.array(ctx.get(D + "tabulated_mass_loss_Keeley24", "_log10_mbound_over_minfall")).reshape(20, 20, 20)
    sd = np.array(ctx.get(D + "tabulated_mass_loss_Keeley24", "_log10_mbound_over_minfall_scatter_dex")).reshape(20, 20, 20)
    t, h, c = np.linspace(0, 7.658449372663094, 20), np.linspace(2, 8, 20), np.linspace(0.3010299956639812, 2.3010299956639813, 20)
    knot = ctx.choice("knot", [(0, 3, 4), (19, 19, 0), (7, 3, 5), (2, 17, 1), (12, 0, 19), None])
    n0 = len(ctx.rng.log)
    if knot is None:
        x = ctx.real("x", 0, 0.2)
        out = f(*ctx.choice("point", [(1.0, -0.5, 5.0), (0.1, 3.0, 4.0), (2.6, 3.0, 9.0), (1.2, 12.0, 1.0)])[:2] + (5.0 + x,))
    else:
        i, j, k = knot
        p = (float(c[k]), float(t[i]), float(h[j]))
        ctx.close(f.evaluate_mean_mass_loss(*p), mean[i, j, k], "tabulated mean", rtol=1e-6, atol=1e-9)
        ctx.close(f.evaluate_scatter_dex(*p), sd[i, j, k], "tabulated scatter", rtol=1e-6, atol=1e-9)
        out = f(*p)
        drawn = ctx.rng.log[n0:]
        ctx.check(len(drawn) == 1 and drawn[0][0] == "normal", "one Gaussian draw")
        mu, s = drawn[0][1]
        ctx.close(mu, mean[i, j, k], "mean of the draw", rtol=1e-6, atol=1e-9)
        ctx.close(s, max(sd[i, j, k], 0.001), "scatter of the draw", rtol=1e-6)
        ctx.close(out, ctx.min(drawn[0][2], 0), "the draw", rtol=1e-9)
    ctx.le(out, 0, "never more than the infall mass")
    ctx.observe("f", out)


PROFILES = [(1.0, 3.0, 0.0), (1.0, 3.0, 0.5), (1.0, 3.0, 1.0), (1.0, 3.0, 1.5), (1.0, 4.0, 0.0), (1.0, 4.0, 0.5), (1.0, 4.0, 1.0), (1.0, 4.0, 1.5), (2.0, 3.0, 0.0), (2.0, 4.0, 0.0)]


@functools.lru_cache(None)
def total(tau, alpha, beta, gamma, delta):
    """dimensionless mass of the truncated profile by quadrature"""
    from scipy.integrate import quad
    g = lambda u: 4 * math.pi * math.exp(u) ** (3 - gamma) / (1 + math.exp(u) ** alpha) ** ((beta - gamma) / alpha) / (1 + (math.exp(u) / tau) ** delta)
    m = math.log(tau)
    return quad(g, min(m, 0) - 25, min(m, 0), limit=200)[0] + quad(g, min(m, 0), max(m, 0), limit=200)[0] + quad(g, max(m, 0), max(m, 0) + 25, limit=200)[0]


@functools.lru_cache(None)
def enclosed(x, alpha, beta, gamma):
    from scipy.integrate import quad
    return quad(lambda r: 4 * math.pi * r ** (2 - gamma) / (1 + r ** alpha) ** ((beta - gamma) / alpha), 0, x, epsabs=0, epsrel=1e-10)[0]


@harness("the supported inner and outer slopes and both truncation powers; concentration 2 to 100, bound mass 1e-4 to 0.9 times the infall mass; the table inversion as the exact inverse of the total mass of the truncated profile, and checked against quadrature at its knots", prove_ms=10000, budget=150, max_paths=1500)
def density_transfer(ctx):
    mod = ctx.load(F)
    (al, be, ga), de = ctx.choice("profile", [(p, d) for p in PROFILES for d in (2.0, 3.0)] if ctx.thorough else [(PROFILES[i], d) for i, d in ((2, 2.0), (2, 3.0), (1, 2.0), (6, 2.0), (8, 2.0), (9, 2.0), (6, 3.0))])
    kw = dict(alpha=al, beta=be, gamma=ga, delta=de)
    G = ctx.fn("total mass", lambda t: total(t, al, be, ga, de), mono="inc", lo=0, lo_strict=True)
    knots = []

    class Inverse(object):
        """contract of a table inversion: the point the tabulated function takes the value at"""

        def __init__(self, x, y, *a, **k):
            self.table = np.array(x, dtype=float), np.array(y, dtype=float)

        def __call__(self, q):
            tau = ctx.real("tau%d" % len(knots), 1e-12, 1e12)
            ctx.assume(ctx.log(G(tau)) <= q)
            ctx.assume(ctx.log(G(tau)) >= q)
            knots.append(self.table)
            return ctx.log(tau)
    if ctx.symbolic and hasattr(mod, "interp1d"):
        ctx.patch(mod, "interp1d", Inverse)
    con = ctx.choice("c", [2.0, 32.0] if (al, be) != (2.0, 4.0) else [2.0])
    M = 1e8
    R = 64.0
    m0 = M / enclosed(con, al, be, ga)
    w = ctx.real("w", 1, 3 if ctx.thorough else 1.3)
    mb = w * M * ctx.choice("scale", [1e-4, 0.3] if be == 3.0 else [0.05 if al == 1.0 else 0.3])  # steep profiles of finite mass: fits calibrated above 0.04, and solvable for light subhalos
    before = ctx.choice("after another query", [None, (1.0, 3.0, 1.0, 2.0), (1.0, 3.0, 1.0, 3.0), (1.0, 3.0, 0.5, 2.0), (1.0, 4.0, 1.0, 2.0)] if (al, be, ga, de) == (1.0, 3.0, 1.0, 2.0) or ctx.thorough else [None])
    if before:
        mod.compute_r_te_and_f_t((2e-6 if before[3] == 2.0 and before[1] == 3.0 else 0.1) * M, M, R, 15.0, **dict(zip(("alpha", "beta", "gamma", "delta"), before)))
    r, f = mod.compute_r_te_and_f_t(mb, M, R, con, **kw)
    r, f = (np.ravel(np.array(v, dtype=object))[0] for v in (r, f))
    ctx.lt(0, f, "positive density transfer")
    ctx.le(f, 1 + 1e-12, "density is never raised")
    ctx.lt(0, r, "positive truncation radius")
    ctx.close(ctx.log(G(r / (R / con))), ctx.log(mb / m0) - ctx.log(f), "the truncated profile has the bound mass", rtol=0, atol=2e-3)
    for k in knots[-1:]:
        for i in range(0, len(k[0]), 24):
            ctx.close(math.exp(k[0][i]), total(math.exp(k[1][i]), al, be, ga, de), "tabulated total mass", rtol=1e-4)
    ctx.observe("f", f)


class Shape(object):
    """table inversion as any increasing function (only the density transfer is looked at)"""

    def __init__(self, ctx):
        self.f = ctx.fn("inverse", lambda q: q, mono="inc", lo=-60, hi=60)

    def __call__(self, x, y, *a, **k):
        return lambda q: self.f(np.ravel(np.array(q, dtype=object))[0])


@harness("NFW halos: two bound masses up to four times the infall mass in any order; halos of scaled mass; the published density transfer; remnants above the reference mass; concentration 2 to 100", prove_ms=10000)
def transfer_law(ctx):
    mod = ctx.load(F)
    if ctx.symbolic and hasattr(mod, "interp1d"):
        ctx.patch(mod, "interp1d", Shape(ctx))
    q, con, (lo, hi) = ctx.choice("case", [("monotone", 2.0, (0.02, 0.05)), ("monotone", 11.0, (1e-4, 1e-3)), ("monotone", 100.0, (0.3, 0.6)), ("scaled", 2.0, (1e-4, 1e-3)), ("scaled", 11.0, (0.3, 0.6)),
                                          ("published", 11.0, (1e-3, 0.02)), ("published", 40.0, (0.1, 0.5)), ("unstripped", 2.0, (0, 1)), ("unstripped", 11.0, (0, 1)), ("unstripped", 100.0, (0, 1))])
    one = lambda *a: [np.ravel(np.array(v, dtype=object))[0] for v in mod.compute_r_te_and_f_t(*a)]
    M, R = 1e8, 64.0
    if q == "unstripped":
        a = ctx.real("a", lo, hi)
    else:  # the power of the published fit as the variable
        E = 0.23376409
        u = ctx.real("u", lo ** E, hi ** E)
        a = u ** fractions.Fraction(100000000, 23376409)
    ref = 1.1605002 * enclosed(20.587820037799197, 1.0, 3.0, 1.0) / enclosed(con, 1.0, 3.0, 1.0)  # bound mass of the unstripped reference halo
    if q == "monotone":
        v = ctx.real("v", lo ** E, hi ** E)
        ctx.assume(u <= v)
        b = v ** fractions.Fraction(100000000, 23376409)
        ctx.le(one(a * M, M, R, con)[1], one(b * M, M, R, con)[1] + 1e-12, "a heavier remnant is not less dense")
    elif q == "scaled":
        k = ctx.choice("factor", [1e-3, 1e4])
        (r1, f1), (r2, f2) = one(a * M, M, R, con), one(a * k * M, k * M, R, con)
        ctx.close(f1, f2, "depends on the bound fraction only", rtol=1e-9)
        ctx.close(ctx.log(r1), ctx.log(r2), "truncation radius depends on the bound fraction and the virial radius only", rtol=0, atol=1e-6)
    elif q == "published":
        x = a / ref
        ctx.close(one(a * M, M, R, con)[1], 1.75826635 * x ** 0.23376409 / (1 + 0.75826635 * x ** 0.46752818), "density transfer of Du et al. (2024) for NFW halos", rtol=1e-5)
    else:
        ctx.close(one((1.0001 + 3 * a) * ref * M, M, R, con)[1], 1.0, "no change of an unstripped halo", rtol=1e-9)


class Truncated(object):
    """the two results of the density-transfer calculation as any positive functions of bound mass, infall mass, radius and concentration"""

    def __init__(self, ctx):
        self.r = ctx.fn("r_te", lambda mb, m, r, c: 0.3 * r * (mb / m) ** 0.4 + 0.001 * c, lo=1e-6, hi=1e6)
        self.f = ctx.fn("f_t", lambda mb, m, r, c: min(1.0, (mb / m) ** 0.3), lo=1e-9, hi=1)

    def __call__(self, mb, m, r, c, *a, **k):
        return self.r(mb, m, r, c), self.f(mb, m, r, c)


class Concentration(object):
    """concentration at infall: any value, whatever the mass and redshift"""

    def __init__(self, ctx):
        self.c = 10.0 ** ctx.real("log c", 0.31, 1.75)

    def nfw_concentration(self, *a, **k):
        return self.c


TIDAL = {"TruncationGalacticus": ("InterpGalacticus", 5.0), "TruncationGalacticusZinfall": ("InterpGalacticusZinfall", 5.0), "TruncationGalacticusMilkyWay": ("InterpGalacticusMW", 8.0),
         "TruncationGalacticusKeeley24": ("InterpGalacticusKeeley24", 5.0), "TruncationGalacticusApproxCDM": (None, None)}


@harness("every tidal truncation model on a subhalo of free mass: bound mass, profile, physical parameters and lensing arguments asked in several orders; mass loss any function (a new one for every evaluation); density transfer any function", prove_ms=10000)
def one_bound_mass(ctx):
    c, lc, calls = halos.lens(ctx)
    name = ctx.choice("model", sorted(TIDAL))
    cls, host = TIDAL[name]
    asked = []
    if cls:
        depth = ctx.choice("stripping of concrete runs", [-0.4, -6.0, -1e-4]) if name == "TruncationGalacticusKeeley24" else -0.4
        loss = ctx.fn("log10 bound fraction", lambda k, *a: depth * (1 + 0.2 * k), lo=-8, hi=0)

        def call(self, logc, t, h):
            asked.append((logc, t, h))
            return loss(len(asked), logc, t, h)
        ctx.patch(ctx.get(I, cls), "__call__", call)
    mod = ctx.load(A)
    tr = Truncated(ctx)
    tau = ctx.fn("tau", lambda lc_, lf: 0.8 + 0.4 * lf + 0.01 * lc_, lo=-4.1, hi=2.3)
    if hasattr(mod, "compute_r_te_and_f_t"):
        ctx.patch(mod, "compute_r_te_and_f_t", tr)
    else:
        ctx.gap("density transfer is not called through its public function")
    points = []

    def lookup(p):
        points.append((p[0], p[1], tau(p[0], p[1])))
        return points[-1][2]
    ctx.patch(mod, "tau_mf_interpolation", lambda: lookup)
    model = ctx.get(A, name)(lc, host) if cls else ctx.get(A, name)(lc)
    conc = Concentration(ctx)
    m = ctx.real("w", 1, 10) * 1e7
    halo = halos.make(ctx, "TNFW", lc, 0.1, -0.2, 0.5, mass=m, sub=True, conc=conc, trunc=model)
    order = ctx.choice("order", ["bound mass first", "profile first", "lensing first"])
    mb = halo.bound_mass_galacticus_definition if order == "bound mass first" else None
    if order == "lensing first":
        halo.lenstronomy_params
    rt = halo.profile_args[1]
    rhos = halo.params_physical["rhos"]
    if mb is None:
        mb = halo.bound_mass_galacticus_definition
    ctx.close(halo.bound_mass_galacticus_definition, mb, "the bound mass is drawn once")
    ctx.le(ctx.log10(mb / m), 1e-9, "never more than the infall mass")
    ctx.lt(0, mb, "positive bound mass")
    rho0, rs, r200 = lc.NFW_params_physical(m, halo.c, halo.z_eval)
    if cls:
        ctx.check(len(asked) == 1, "mass loss evaluated once")
        lcon, t, h = asked[0]
        ctx.close(lcon, ctx.log10(halo.c), "concentration at infall")
        ctx.close(h, host, "host concentration")
        ctx.close(t, halo.z_infall - lc.z_lens if "Zinfall" in name else halo.time_since_infall, "time or redshift since infall")
        ctx.close(ctx.log10(mb / m), loss(1, *asked[0]), "bound mass of the calibrated model", rtol=1e-6, atol=1e-9)
    if name == "TruncationGalacticusKeeley24":
        ctx.check(len(points) == 1, "one lookup of the truncation radius")
        lcon, lf, t = points[0]
        ctx.close(ctx.log10(rt / rs), t, "truncation radius of the lookup", rtol=1e-6, atol=1e-6)
        ctx.close(lcon, ctx.log10(halo.c), "lookup at the concentration at infall")
        l = loss(1, *asked[0])
        ctx.check(ctx.implies(l <= -0.001, ctx.abs(lf - l) <= 1e-6), "lookup at the same bound mass")
        ctx.check(ctx.implies(l >= -0.001, ctx.abs(lf + 0.001) <= 1e-6), "lookup at the end of the table for a halo that lost nothing")
        ctx.close(rhos, rho0, "density is not rescaled")
    else:
        ctx.close(rt, tr.r(mb, m, r200, halo.c), "truncation radius of the same bound mass")
        ctx.close(rhos, rho0 * tr.f(mb, m, r200, halo.c), "density transfer of the same bound mass")
    ctx.observe("rt", rt)


@harness("every model with mass loss asked directly for the truncation radius of a halo, for the radius of given values and for the bound mass; free mass, concentration and redshift; mass loss and density transfer any functions", prove_ms=10000)
def asked_directly(ctx):
    c, lc, calls = halos.lens(ctx)
    name = ctx.choice("model", sorted(TIDAL))
    cls, host = TIDAL[name]
    mod = ctx.load(A)
    if not hasattr(mod, "compute_r_te_and_f_t"):
        ctx.gap("density transfer is not called through its public function")
    tr = Truncated(ctx)
    ctx.patch(mod, "compute_r_te_and_f_t", tr)
    tau = ctx.fn("tau", lambda lc_, lf: 0.8 + 0.4 * lf + 0.01 * lc_, lo=-4.1, hi=2.3)
    points = []

    def lookup(p):
        points.append(p)
        return tau(p[0], p[1])
    ctx.patch(mod, "tau_mf_interpolation", lambda: lookup)
    asked = []
    if cls:
        loss = ctx.fn("log10 bound fraction", lambda *a: -0.7, lo=-8, hi=-0.01)

        def call(self, *a):
            asked.append(a)
            return loss(*a)
        ctx.patch(ctx.get(I, cls), "__call__", call)
    model = ctx.get(A, name)(lc, host) if cls else ctx.get(A, name)(lc)
    m = ctx.real("w", 1, 10) * 1e7
    halo = halos.make(ctx, "TNFW", lc, 0.1, -0.2, 0.5, mass=m, sub=True, conc=Concentration(ctx), trunc=model)
    con = halo.c
    since = halo.z_infall - lc.z_lens if "Zinfall" in name else halo.time_since_infall
    _, rs, r200 = lc.NFW_params_physical(m, con, halo.z_eval)
    applied = []
    halo.rescale_normalization = lambda f, *a, **k: applied.append(f)
    how = ctx.choice("query", ["halo", "values", "mass"])
    drawn = len(ctx.rng.log)
    if how == "halo":
        out = model.truncation_radius_halo(halo)
    elif how == "mass":
        if not hasattr(model, "calculate_mbound"):
            return
        out = model.calculate_mbound(halo)
    elif not cls:
        out = model.truncation_radius(m, con, halo.z_eval)
    elif name == "TruncationGalacticusKeeley24":
        out = model.truncation_radius(m, con, since, host, halo.z_eval)
    else:
        out = model.truncation_radius(m, con, since, halo.z_eval)
    if cls:
        ctx.check(len(asked) == 1, "mass loss evaluated once")
        lcon, t, h = asked[0]
        ctx.close(lcon, ctx.log10(con), "concentration at infall")
        ctx.close(h, host, "host concentration")
        ctx.close(t, since, "time or redshift since infall")
        mb = m * 10 ** loss(*asked[0])
    else:
        v = [x for _, _, x in ctx.rng.log[drawn:]]
        if len(v) != 1:
            ctx.gap("one draw of the bound fraction")
        mb = m * 10 ** np.ravel(np.array(v[0], dtype=object))[0]
    if how == "mass":
        ctx.close(ctx.log10(out / m), ctx.log10(mb / m), "bound mass of the model", rtol=1e-6, atol=1e-9)
    elif name == "TruncationGalacticusKeeley24":
        ctx.check(len(points) == 1, "one lookup of the truncation radius")
        ctx.close(points[0][0], ctx.log10(con), "lookup at the concentration at infall")
        ctx.close(points[0][1], ctx.log10(mb / m), "lookup at the bound fraction", rtol=1e-6, atol=1e-6)
        ctx.close(ctx.log10(out / rs), tau(*points[0]), "truncation radius of the lookup", rtol=1e-6, atol=1e-6)
    else:
        ctx.close(out, tr.r(mb, m, r200, con), "truncation radius of the bound mass", rtol=1e-6)
        if how == "halo":
            ctx.check(len(applied) == 1, "density transfer applied once")
            ctx.close(applied[0], tr.f(mb, m, r200, con), "density transfer applied to the halo", rtol=1e-6)
    ctx.observe("out", out)


@harness("bound masses drawn from a normal distribution in the logarithm (any mean -8 to 1, any width) and from the truncated distribution of CDM halos at lens redshifts 0.1 to 2; every draw; density transfer any function", prove_ms=10000)
def drawn_mass(ctx):
    zl = ctx.choice("z_lens", [0.1, 0.2, 0.35, 0.5, 0.75, 1.2, 1.9])
    c, lc, _ = halos.lens(ctx, zl, 3.0)
    mod = ctx.load(A)
    if not hasattr(mod, "compute_r_te_and_f_t"):
        ctx.gap("density transfer is not called through its public function")
    tr = Truncated(ctx)
    ctx.patch(mod, "compute_r_te_and_f_t", tr)
    ctx.patch(mod, "tau_mf_interpolation", lambda: None)
    m = ctx.real("w", 1, 10) * 1e7
    kind = ctx.choice("model", ["normal", "normal default", "CDM halo", "CDM direct"])
    kw = {}
    mean, sd = -1.5, 0.5
    if kind == "normal":
        mean, sd = ctx.real("mean", -8, 1), ctx.real("sd", 0.01, 1)
        kw = {"log10_fbound_mean": mean, "log10_fbound_standard_dev": sd}
    model = ctx.get(A, "TruncationBoundMassPDF" if "normal" in kind else "TruncationGalacticusApproxCDM")(lc, **kw)
    n0 = len(ctx.rng.log)
    if kind == "CDM direct":
        con, z = 10.0, 2.0
        rt = model.truncation_radius(m, con, z)
    else:
        halo = halos.make(ctx, "TNFW", lc, 0.1, -0.2, zl, mass=m, sub=True, conc=Concentration(ctx), trunc=model)
        con, z = halo.c, halo.z_eval
        rt = halo.profile_args[1]
        rhos = halo.params_physical["rhos"]
    draws = [d for d in ctx.rng.log[n0:] if d[0] in ("normal", "truncnorm")]
    ctx.check(len(draws) == 1, "one draw of the bound mass")
    kind_, par, v = draws[0]
    v = np.ravel(np.array(v, dtype=object))[0]
    if "normal" in kind:
        ctx.check(kind_ == "normal", "normal distribution")
        ctx.close(par[0], mean, "requested mean of log10 f")
        ctx.close(par[1], sd, "requested width of log10 f")
        f = 0.999 if bool(10 ** v >= 1) else 10 ** v
    else:
        ctx.check(kind_ == "truncnorm", "truncated normal distribution")
        z = min(max(zl, 0.2), 1.2)
        loc, scale = np.interp(z, [0.2, 0.5, 0.8, 1.2], [-4.0, -1.3, -1.0, -1.0]), np.interp(z, [0.2, 0.5, 0.8, 1.2], [2.5, 1.8, 1.2, 0.6])
        for got, want, what in zip(par, ((-10 - loc) / scale, -loc / scale, loc, scale), ("lower end log10 f = -10", "upper end log10 f = 0", "location", "scale")):
            ctx.close(got, want, what, rtol=1e-9, atol=1e-12)
        f = 10 ** v
    _, rs, r200 = lc.NFW_params_physical(m, con, z if kind == "CDM direct" else halo.z_eval)
    if "normal" in kind:
        ctx.lt(f, 1, "less than the infall mass")
    else:
        ctx.le(ctx.log10(f), 1e-9, "never more than the infall mass")
    if kind == "CDM direct":
        r200 = lc.NFW_params_physical(m, 10.0, 2.0)[2]
    ctx.close(rt, tr.r(m * f, m, r200, con), "truncation radius of the drawn bound mass")
    if kind != "CDM direct":
        rho0 = lc.NFW_params_physical(m, con, halo.z_eval)[0]
        ctx.close(rhos, rho0 * tr.f(m * f, m, r200, con), "density transfer of the drawn bound mass")
    ctx.observe("rt", rt)


@functools.lru_cache(None)
def tau_of(c, f):
    """truncation radius over scale radius of a truncated NFW halo that keeps a fraction f of its mass inside c scale radii"""
    from scipy.integrate import quad
    from scipy.optimize import brentq
    full = math.log(1 + c) - c / (1 + c)

    def kept(t):
        g = lambda y: math.exp(2 * y) / (1 + math.exp(y)) ** 2 / (1 + math.exp(2 * y) / t ** 2)
        m = min(max(math.log(t), -20.0), math.log(c))
        return quad(g, -25, m, epsabs=0, epsrel=1e-9, limit=200)[0] + quad(g, m, math.log(c), epsabs=0, epsrel=1e-9, limit=200)[0]
    return 10 ** brentq(lambda x: math.log(kept(10 ** x) / full / f), -6, 6, xtol=1e-9)


@harness("truncation radius of a bound fraction (1e-5.8 to 0.74) and concentration (1 to 400): every point of windows about as wide as two cells of the tabulation, against the exact inversion at the corners of the window", prove_ms=10000)
def tau_lookup(ctx):
    lookup = ctx.get("pyHalo.Halos.tnfw_halo_util", "tau_mf_interpolation")()
    lc0, lf0 = ctx.choice("window", [(1.0, -1.0), (0.31, -4.0), (2.0, -0.3), (1.5, -5.8), (2.58, -2.5), (0.6, -0.23), (1.2, -0.23)])
    dc, df = 0.04, 0.1
    lcon, lf = ctx.real("log c", lc0, lc0 + dc), ctx.real("log f", lf0, lf0 + df)
    got = lookup((lcon, lf))
    got = np.ravel(np.array(got, dtype=object))[0]
    corners = [math.log10(tau_of(10 ** a, 10 ** b)) for a in (lc0, lc0 + dc) for b in (lf0, lf0 + df)]
    tol = 0.03
    ctx.le(min(corners) - tol, got, "not smaller than the exact radius anywhere in the window")
    ctx.le(got, max(corners) + tol, "not larger than the exact radius anywhere in the window")
    ctx.observe("tau", got)
