"""P26 evolving self-interacting profiles: radii positive, starting collisionless, continuous, frozen at the maximum age"""
from symx.api import registry
from harness import world, halos
import math
HARNESSES, harness = registry()
N = halos.BASE + "NFW_core_trunc"
TMAX = 1.6
LN = math.log(0.001)


def fit(ctx, t):
    """the calibrated evolution up to core collapse: scale and core radius in units of the initial scale radius"""
    rs = 1.13293 + t * (-0.518186 + t * (0.30265 - 0.400463 * t)) - 0.13293 * ctx.log(0.001 + t) / LN
    rc = 1.06419 * ctx.sqrt(t) + t * (-1.33207 + t * (0.431133 + t * (-0.148087 + 0.024455 * t)))
    return rs, rc


RS5, RC5 = 1.13293 - 0.518186 * 0.5 + 0.30265 * 0.25 - 0.400463 * 0.125 - 0.13293 * math.log(0.501) / LN, 1.06419 * math.sqrt(0.5) - 1.33207 * 0.5 + 0.431133 * 0.25 - 0.148087 * 0.125 + 0.024455 * 0.0625


def law(ctx, t):
    """radii in units of the initial scale radius at any age"""
    if bool(t >= TMAX):
        t = TMAX
    if bool(t <= 1):
        rs, rc = fit(ctx, t)
    else:
        d = t - 0.5
        rs, rc = RS5 * ctx.exp(-0.47 * d - 2.4 * d * d * d), ctx.max(RC5 - 0.28 * d, 1e-4)
    return rs, ctx.max(rc, 1e-7 * rs)


@harness("every dimensionless age from 0 to 1000 and every initial scale radius from 1e-3 to 1000 kpc", prove_ms=15000)
def evolution(ctx):
    ev = ctx.get(N, "evolve_profile")
    r0 = ctx.real("rs0", 1e-3, 1000)
    t = ctx.real("t", 0, 1) if ctx.flag("before collapse") else ctx.real("t", 1, 1000)
    rs, rc = ev(t, r0)
    a, b = law(ctx, t)
    ctx.close(rs, a * r0, "evolved scale radius", rtol=1e-9, atol=1e-12)
    ctx.close(rc, b * r0, "evolved core radius", rtol=1e-9, atol=1e-12)
    ctx.observe("rs", rs)


@harness("every dimensionless age from 0 to 1000 and every initial scale radius from 1e-3 to 1000 kpc, a second one with another age or another scale radius", prove_ms=15000)
def physical(ctx):
    ev = ctx.get(N, "evolve_profile")
    r0 = ctx.real("rs0", 1e-3, 1000)
    kind = ctx.choice("age", ["zero", "early", "first", "second", "third", "collapsing", "beyond", "far beyond"])
    lo, hi = {"zero": (0, 0), "early": (0, 1e-3), "first": (1e-3, 0.3), "second": (0.3, 0.7), "third": (0.7, 1), "collapsing": (1, 1.6), "beyond": (1.6, 10), "far beyond": (10, 1e6)}[kind]
    t = ctx.real("t", lo, hi) if hi > lo else 0.0
    rs, rc = ev(t, r0)
    ctx.lt(0, rs, "positive scale radius")
    ctx.lt(0, rc, "positive core radius")
    f = ctx.log if kind == "collapsing" else lambda v: v
    ctx.le(f(rs), f(1.06 * r0), "scale radius never much larger than the initial one")
    ctx.le(f(0.01 * r0), f(rs), "scale radius stays resolved")
    ctx.le(rc, 0.3 * r0, "core smaller than the initial scale radius")
    ctx.le(1e-7 * rs, rc * (1 + 1e-9), "core never vanishes")
    if kind == "zero":
        ctx.close(rs, r0, "collisionless scale radius at the start", rtol=1e-9)
        ctx.close(rc, 1e-7 * r0, "no core at the start", rtol=1e-6)
    if kind == "early":
        ctx.le(rc, 1.1 * ctx.sqrt(t) * r0 + 1.1e-7 * r0, "core grows from nothing")
    if kind in ("beyond", "far beyond"):
        es, ec = ev(TMAX, r0)
        ctx.close(rs, es, "no evolution of the scale radius past the maximum age", rtol=1e-9)
        ctx.close(rc, ec, "no evolution of the core past the maximum age", rtol=1e-9)
    k = ctx.choice("factor", [0.125, 8.0])
    s2, c2 = ev(t, k * r0)
    ctx.close(s2, k * rs, "proportional to the initial scale radius", rtol=1e-9)
    ctx.close(c2, k * rc, "proportional to the initial scale radius", rtol=1e-9)
    ctx.observe("rc", rc)


@harness("pairs of ages up to 1e-3 apart around the start, the collapse and the maximum age, every initial scale radius from 1e-3 to 1000 kpc", prove_ms=15000)
def continuous(ctx):
    ev = ctx.get(N, "evolve_profile")
    r0 = ctx.real("rs0", 1e-3, 1000)
    at, up = ctx.choice("boundary", [(1.0, False), (1.0, True), (1.6, False), (1.6, True), (1.1, False), (1.1, True), (0.5, True)])
    d = ctx.real("apart", 0, 1e-3)
    s1, c1 = ev(at, 1.0)
    s2, c2 = ev(at + d if up else at - d, r0)
    if at > 1 or (at == 1 and up):
        a, b = ctx.log(s2), ctx.log(r0) + math.log(s1)
        ctx.le(a - b, 0.01, "scale radius continuous")
        ctx.le(b - a, 0.01, "scale radius continuous")
    else:
        ctx.close(s2, s1 * r0, "scale radius continuous", rtol=0.01)
    ctx.le(c1 * r0 - c2, 3e-3 * r0, "core radius continuous")
    ctx.le(c2 - c1 * r0, 3e-3 * r0, "core radius continuous")
    ctx.observe("rs", s2)


@harness("subhalos and field halos with any mass at fixed redshifts; any age of the universe, infall, time scaling and collapse time", prove_ms=15000)
def evolving_halo(ctx):
    c, lc = halos.plain_lens(ctx, 0.5, 2.0)
    AGE = ctx.fn("halo age", lambda z, zform: 1.0 if z > zform else 12.0 / (1 + z) - 12.0 / (1 + zform), lo=0)
    ctx.patch(c, "halo_age", lambda z, zform=10: AGE(z, zform))
    sub = ctx.flag("subhalo")
    z = 0.5 if sub else ctx.choice("z", [0.25, 1.25])
    T = ctx.get("lenstronomy.LensModel.Profiles.nfw_core_truncated", "TNFWC")
    G = ctx.fn("density amplitude", lambda a, b, c: 1 + a + 2 * b + 3 * c, lo=1e-3, hi=1e3)
    ctx.patch(T, "density_lens", lambda self, r, Rs, alpha, r_core, r_trunc: alpha * G(Rs, r_core, r_trunc) * r ** -2.0)
    m, rt = ctx.real("m", 1e6, 1e10), ctx.real("rt", 0.05, 50)
    lam, tc, mc = ctx.real("lambda_t", 0.1, 3), ctx.real("timescale", 0.1, 1000), ctx.real("conserved mass", 1e5, 1e10)
    con = ctx.choice("c", [4.0, 15.0])

    class Fixed(object):
        def nfw_concentration(self, mass, zz):
            return con
    h = ctx.get(N, "TNFWCHaloEvolving")(m, 1.0, 2.0, 30.0 if sub else None, z, sub, lc, {"rt_kpc": rt, "mass_conservation": mc, "lambda_t": lam, "sidm_timescale": tc}, halos.Trunc(ctx), Fixed(), 0.5)
    if sub:
        zi = ctx.choice("infall", [1.5, 3.0, 10.0, 11.5])
        h.set_infall_redshift(zi)
        zc = min(zi, 10)
        age = AGE(zc, 10) + lam * AGE(0.5, zc)
    else:
        age = AGE(z, 10)
    ctx.close(h.halo_effective_age, age, "effective age: field halos since formation, subhalos with the time after infall rescaled", rtol=1e-9)
    ctx.close(h.t_over_tc * tc, age, "dimensionless age: effective age over the collapse time", rtol=1e-9)
    rs0 = lc.NFW_params_physical(m, con, h.z_infall if sub else z)[1]
    rs, rc = ctx.get(N, "evolve_profile")(h.t_over_tc, rs0)
    p = h.params_physical
    ctx.close(p["rs"], rs, "scale radius evolved to the age of the halo", rtol=1e-9)
    ctx.close(p["r_core_kpc"], rc, "core radius evolved to the age of the halo", rtol=1e-9)
    ctx.observe("age", h.t_over_tc)
