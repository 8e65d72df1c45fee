"""P17 dark-matter particle conversions are exact inverses and monotone"""
from symx.api import registry
from harness import world
import numpy as np
import math
HARNESSES, harness = registry()


def setup(ctx):
    c = world.Cosmology(ctx)
    return c, world.free_lens_cosmo(ctx, 0.5, 2.0, cosmo=c)


def scalar(v):
    return v.reshape(-1)[0] if isinstance(v, np.ndarray) else v


def minimiser(ctx, mod, lo, hi):
    """symbolic side: a numerical minimisation of a non-negative misfit is assumed to reach a misfit below 1e-4 (the replay runs the real one)"""
    if not ctx.symbolic or not hasattr(mod, "minimize"):
        return

    def minimize(f, x0=None, *a, **k):
        m = ctx.real("minimiser", lo, hi)
        ctx.assume(scalar(f(m)) <= 1e-4)
        return {"x": np.array([m])}
    ctx.patch(mod, "minimize", minimize)


@harness("thermal relic mass from any half-mode mass 1e2-1e15")
def thermal(ctx):
    c, lc = setup(ctx)
    m, k = ctx.real("m_hm", 1e2, 1e15), ctx.real("ratio", 1.001, 1e4)
    t = lc.halfmode_to_thermal(m)
    ctx.lt(0, t, "positive")
    ctx.lt(lc.halfmode_to_thermal(k * m), t, "a larger half-mode mass means a lighter particle")
    ctx.close(lc.halfmode_to_thermal(k * m) * k ** 0.3, t, "power minus 0.3", rtol=1e-6)
    # 5e8 solar masses at 3 keV
    ctx.close(t, 3.0 * (m / 5e8) ** -0.3, "5e8 solar masses correspond to 3 keV", rtol=0.03)
    ctx.observe("keV", t)


@harness("half-mode mass from any thermal relic mass 0.3-100 keV and back; library minimiser assumed to converge")
def inverse(ctx):
    c, lc = setup(ctx)
    minimiser(ctx, ctx.load("pyHalo.Halos.lens_cosmo"), 1e2, 1e15)
    t = ctx.real("keV", 0.3, 100)
    m = scalar(lc.mthermal_to_halfmode(t))
    ctx.close(lc.halfmode_to_thermal(m), t, "converting to a half-mode mass and back returns the particle mass", rtol=1e-4)


@harness("free-streaming length of any half-mode mass 1e2-1e15")
def free_streaming(ctx):
    c, lc = setup(ctx)
    m, k = ctx.real("m_hm", 1e2, 1e15), ctx.real("ratio", 1.001, 1e4)
    l = lc.mhm_to_fsl(m)
    rho = 2.77536627e11 * c.h ** 2
    mass = 4 * math.pi / 3 * (13.93 * l / 2) ** 3
    # mean matter or critical density
    ctx.eq_or([(mass * rho, m), (mass * rho * 0.309, m)], "a sphere of half the half-mode wavelength holds the half-mode mass", rtol=3e-2)
    ctx.close(lc.mhm_to_fsl(m * k ** 3), l * k, "cube root of the mass", rtol=1e-9)


class Over(object):
    """a module with some names replaced"""

    def __init__(self, real, **over):
        self._real = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._real, k)


@harness("any linear or quadratic polynomial and cubics with two leading and two quadratic coefficients, the other two coefficients of the depressed cubic in [-5, 5]: what is returned are roots (cube roots and cosines of thirds as exact algebraic numbers)", max_paths=200, prove_ms=15000)
def cubic(ctx):
    f = ctx.get("pyHalo.Halos.tnfw_halo_util", "cubic_real_roots")
    kind = ctx.choice("degree", [1, 2, 3])
    if kind == 3:
        M = ctx.load("pyHalo.Halos.tnfw_halo_util")
        if ctx.symbolic:
            n = []

            def cbrt(x):
                u = ctx.real("U%d" % len(n), -50, 50)
                n.append(u)
                ctx.assume(u * u * u == x)
                return u

            def arccos(w):
                phi = ctx.real("phi%d" % len(n), 0, math.pi)
                n.append((phi, w))
                return phi

            def cos(t):
                # the cosine of a third of an angle with known cosine (triple-angle identity)
                for pw in n:
                    if isinstance(pw, tuple):
                        for k in range(-3, 4):
                            if ctx.same(3 * t, pw[0] + 2 * math.pi * k, rtol=1e-12):
                                u = ctx.real("C%d" % len(n), -1, 1)
                                n.append(u)
                                ctx.assume(4 * u * u * u - 3 * u == pw[1])
                                return u
                ctx.gap("cosine of an unrelated angle")
            ctx.patch(M, "np", Over(M.np, cbrt=cbrt, cos=cos, arccos=arccos))
        a, b, c, d = ctx.choice("a", [1.0, -2.0]), ctx.choice("b", [0.0, 1.5]), ctx.real("c", -5, 5), ctx.real("d", -5, 5)
        # c and d are the coefficients of the depressed cubic u^3 + c u + d with x = u - b / (3 a)
        h = b / (3 * a)
        c, d = a * (c + 3 * h * h), a * (d + c * h + h ** 3)
        roots = f(a, b, c, d)
        for r in roots:
            ctx.close(a * r ** 3 + b * r ** 2 + c * r + d, 0.0, "a root", atol=1e-6)
        return
    if kind == 1:
        a, b, c, d = 0.0, 0.0, ctx.real("c", -5, 5), ctx.real("d", -5, 5)
        ctx.assume(ctx.abs(c) >= 1e-3)
    else:
        a, b, c, d = 0.0, ctx.real("b", 0.1, 5), ctx.real("c", -5, 5), ctx.real("d", -5, 5)
        if ctx.flag("downward"):
            b = -b
    roots = f(a, b, c, d)
    for r in roots:
        ctx.close(a * r ** 3 + b * r ** 2 + c * r + d, 0.0, "a root", atol=1e-6)
    if kind == 1:
        ctx.check(len(roots) == 1, "a linear equation has one root")
    else:
        ctx.check((c * c - 4 * b * d < 0) if len(roots) == 0 else (c * c - 4 * b * d >= 0), "real roots are found exactly when they exist")
        if len(roots):
            ctx.check(len(roots) == 2, "both roots")
            ctx.close(roots[0] + roots[1], -c / b, "both roots: sum", rtol=1e-6, atol=1e-6)


def slope(x, t):
    return -5 + 2 / (1 + x) + 2 * t ** 2 / (t ** 2 + x ** 2)


@harness("radius at a logarithmic slope: any target slope -4.9 to -1.1, any scale radius and truncation radius (the cubic solver, decided by the harness above, replaced by its contract)", max_paths=200, prove_ms=20000)
def log_slope(ctx):
    H = ctx.get("pyHalo.Halos.HaloModels.TNFW", "TNFWFieldHalo")
    g = ctx.real("slope", -4.9, -1.1)
    rs = ctx.real("rs", 0.001, 100)
    t = ctx.real("tau", 0.05, 30)
    M = ctx.load("pyHalo.Halos.HaloModels.TNFW")
    if ctx.symbolic and hasattr(M, "cubic_real_roots"):
        def roots(a, b, c, d):
            x = ctx.real("root", 1e-5, 1e5)
            ctx.assume(a * x ** 3 + b * x ** 2 + c * x + d == 0)
            return [ctx.real("other root", -10, -1e-6), x]
        ctx.patch(M, "cubic_real_roots", roots)
    r = H.log_derivative_inverse(g, rs, t * rs)
    ctx.le(0, r, "a positive radius")
    ctx.close(H.log_profile_slope(r, rs, t * rs), g, "the slope at the returned radius is the requested one", atol=1e-4)


@harness("logarithmic slope of the truncated profile at any radius and truncation", max_paths=60)
def profile_slope(ctx):
    H = ctx.get("pyHalo.Halos.HaloModels.TNFW", "TNFWFieldHalo")
    r, rs, rt = ctx.real("r", 1e-3, 1e3), ctx.real("rs", 1e-3, 1e3), ctx.real("rt", 1e-3, 1e3)
    s = H.log_profile_slope(r, rs, rt)
    x, t = r / rs, rt / rs
    ctx.close(s, -1 - 2 * x / (1 + x) - 2 * x ** 2 / (t ** 2 + x ** 2), "derivative of the truncated NFW profile", rtol=1e-9, atol=1e-9)
    ctx.le(-5, s, "between -5 and -1")
    ctx.le(s, -1, "between -5 and -1")


def cdf_at(s, xs, cdf):
    for i in range(len(xs) - 1):
        if i == len(xs) - 2 or bool(s <= xs[i + 1]):
            return cdf[i] + (cdf[i + 1] - cdf[i]) * (s - xs[i]) / (xs[i + 1] - xs[i])


@harness("inverse transform sampling of any increasing distribution tabulated at four points, any random numbers, one or two samples, three entry points", max_paths=600)
def sampling(ctx):
    U = ctx.load("pyHalo.utilities")
    xs = np.array([0.0, 0.5, 1.5, 4.0])
    p = ctx.reals("p", 4, 0.05, 10)
    n = ctx.choice("n", [1, 2])
    entry = ctx.choice("entry", ["class", "cdf", "pdf"])
    cdf = np.cumsum(np.array(p))
    total = p[0] + p[1] + p[2] + p[3]
    if entry == "class":
        s = U.ITSampling(xs, cdf)(n)
        s = [s] if n == 1 else list(s)
    elif entry == "cdf":
        s = list(U.inverse_transform_sampling_from_cdf(xs, cdf, n))
    else:
        asked = []

        def f(x, scale):
            asked.append(scale)
            return np.array(p) * scale
        s = list(U.inverse_transform_sampling(xs, f, (2.0,), n))
        ctx.check(asked == [2.0], "the arguments reach the function")
    ctx.check(len(s) == n, "as many samples as requested")
    draws = [d for kind, _, d in ctx.rng.log if kind == "uniform"]
    flat = []
    for d in draws:
        flat += list(np.asarray(d, dtype=object).reshape(-1))
    ctx.check(len(flat) == n, "one random number per sample")
    for kind, par, _ in ctx.rng.log:
        if kind == "uniform":
            ctx.close(par[0], p[0] / total, "the samples cover the whole tabulated range")
            ctx.close(par[1], 1.0, "the samples cover the whole tabulated range")
    for v, u in zip(s, flat):
        ctx.le(xs[0], v, "inside the tabulated range")
        ctx.le(v, xs[-1], "inside the tabulated range")
        ctx.close(cdf_at(v, xs, [c / total for c in cdf]), u, "the distribution at the sample equals the random number", rtol=1e-6, atol=1e-9)


@harness("suppression parameters from any logarithmic slope of the transfer function: at the 20, 50 and 80 per cent masses; library root finder assumed to converge", max_paths=100)
def suppression_parameters(ctx):
    S = ctx.load("pyHalo.Rendering.MassFunctions.stucker")
    mu, nu = (0.2651, 1.638, 16.51), (0.3656, -0.0994, -0.9466)
    beta = ctx.real("beta", 1.5, 6.0)
    k, b, c = ctx.choice("mass", [(0, 0.6, -1.5), (1, 1.1, -0.5), (2, 2.0, -0.3)])
    frac = (0.2, 0.5, 0.8)[k]
    m = mu[k] * beta ** nu[k]
    if ctx.symbolic and hasattr(S, "root"):
        def root(f, p0, **kw):
            # the scale at which a suppression with this shape has the calibrated mass
            la = ctx.log10(m) + math.log10((frac ** (1 / c) - 1) ** (1 / b))
            eq = f([la, b, c])[k]
            ctx.close(eq, 0.0, "the equations solved are those of the calibrated masses", atol=1e-3)
            ctx.le(1, f([la + 0.05, b, c])[k], "the equations solved are those of the calibrated masses")

            class Res(object):
                x = [la, b, c]
            return Res()
        ctx.patch(S, "root", root)
    gamma = 5.0
    fabg = 2 ** (1 / gamma) - 1
    d = -beta * gamma * fabg / (1 + fabg)
    ctx.close(S.beta_from_slope(d, gamma), beta, "transfer-function shape from its slope at the half-mode scale", rtol=1e-6)
    A, B, C = S.stucker_suppression_params(d, gamma)
    if ctx.symbolic:
        m = mu[k] * beta ** nu[k]
    ctx.close((1 + A * m ** (-B)) ** C, frac, "the suppression reaches 20, 50 and 80 per cent at the calibrated masses", rtol=3e-2)


@harness("ultra-light particles: de Broglie wavelength and minimum halo mass, any particle mass 1e-23 to 1e-18 eV, redshift and floor")
def ultralight(ctx):
    U = ctx.load("pyHalo.utilities")
    lm, v = ctx.real("log m", -23, -18), ctx.real("v", 1, 1000)
    l = U.de_broglie_wavelength(lm, v)
    ctx.close(l * 10 ** lm * v, 1.2e-20, "de Broglie wavelength 1.2 kpc at 1e-22 eV and 100 km/s, inverse in mass and velocity", rtol=1e-6)
    om = ctx.fn("matter fraction", lambda z: 0.309 * (1 + z) ** 3 / (0.309 * (1 + z) ** 3 + 0.691), mono="inc", lo=0.3, hi=1)

    class Background(object):
        Om0 = 0.309

        def Om(self, z):
            return om(z)
    astropy = Background()
    z, floor, k = ctx.real("z", 0, 4), ctx.real("floor", 2, 9), ctx.real("ratio", 0.1, 2)
    M = U.MinHaloMassULDM(lm, astropy, floor)
    r = M.m_min(z)
    ctx.lt(0, r, "positive")
    ctx.close(U.MinHaloMassULDM(lm + k, astropy, floor).m_min(z) * 10 ** (1.5 * k), r, "particle mass to the power minus 3/2", rtol=1e-6)
    ctx.close(U.MinHaloMassULDM(-22.0, astropy, floor).m_min(0), 4.4e7, "4.4e7 solar masses today at 1e-22 eV", rtol=1e-3)
    def zeta(z):
        o = om(z)
        return (18 * math.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2) / o
    ctx.close(r, 4.4e7 * (10 ** (lm + 22)) ** -1.5 * (1 + z) ** 0.75 * (zeta(z) / zeta(0)) ** 0.25, "growth with redshift and overdensity", rtol=1e-6)
    w = M(z)
    ctx.close(w, ctx.max(ctx.log10(r), floor), "the larger of the minimum mass and the requested floor", rtol=1e-9)
    ctx.observe("log m_min", w)
