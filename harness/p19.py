"""P19 derived halo quantities are evaluated once and rescaled once"""
from symx.api import registry
from harness import halos, world
import numpy as np
import math
HARNESSES, harness = registry()
ZL = 0.5
TOL = {False: 1e-9, True: 5e-6}  # the bound mass may use the lens model arguments, rounded to 1e-10 arcsec


class Rescaling(halos.Trunc):
    """truncation model that also changes the halo's normalisation, as the tidal models do"""

    def __init__(self, ctx, factor, **k):
        super(Rescaling, self).__init__(ctx, **k)
        self.factor = factor

    def truncation_radius_halo(self, halo):
        r = super(Rescaling, self).truncation_radius_halo(halo)
        halo.rescale_normalization(self.factor)
        return r


def enclosed(ctx, mod, cls, name, density):
    C = ctx.get("lenstronomy.LensModel.Profiles." + mod, cls)
    real = C.mass_3d
    F = ctx.fn(name, lambda *a: real(C(), *[float(v) for v in a[:density] + (1.0,) + a[density:]]), lo=0, lo_strict=True)
    ctx.patch(C, "mass_3d", lambda self, *a: a[density] * F(*(a[:density] + a[density + 1:])))


def first_kw(h):
    return h.lenstronomy_params[0]


QUERIES = {
    "c": lambda h: h.c,
    "infall": lambda h: h.z_infall,
    "z_eval": lambda h: h.z_eval,
    "args": lambda h: h.profile_args,
    "nfw": lambda h: h.nfw_params,
    "physical": lambda h: h.params_physical,
    "lens": first_kw,
    "vmax": lambda h: h.vmax_nfw,
    "mass": lambda h: h.mass_3d("r200"),
    "mass inside 1 kpc": lambda h: h.mass_3d(1.0),
    "density": lambda h: h.density_profile_3d(1.0),
    "bound": lambda h: h.bound_mass,
}
OWN = {
    "NFW": ["c", "z_eval", "args", "nfw", "lens", "vmax", "mass", "density"],
    "TNFW": ["c", "z_eval", "args", "nfw", "physical", "lens", "vmax", "mass", "density", "bound"],
    "CNFW": ["c", "z_eval", "args", "nfw", "lens"],
    "PJAFFE": ["c", "z_eval", "args", "physical", "lens"],
    "GNFW": ["c", "z_eval", "args", "nfw", "lens"],
    "SPL_CORE": ["z_eval", "args", "lens"],
}


def flat(v, pre=""):
    """numbers inside nested results, with a name"""
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in flat(v[k], pre + "/" + str(k))]
    if isinstance(v, (list, tuple)):
        return [x for i, k in enumerate(v) for x in flat(k, pre + "/%d" % i)]
    return [(pre, v)]


def agree(ctx, a, b, label, rtol=1e-9, atol=0):
    fa, fb = flat(a), flat(b)
    ctx.check([k for k, _ in fa] == [k for k, _ in fb], label)
    for (_, u), (_, v) in zip(fa, fb):
        if u is None or isinstance(u, str):
            ctx.check(u == v, label)
        else:
            ctx.close(u, v, label, rtol=rtol, atol=atol)


def cnfw(ctx):
    # the ratio of the projected masses of a cored and of a plain NFW halo is any fraction
    C = ctx.get("lenstronomy.LensModel.Profiles.cnfw", "CNFW")
    f = ctx.fn("core_mass", lambda a, b, c, d: 1.0 / (1 + d / b), lo=0.1, hi=1)
    ctx.patch(C, "mass_2d", lambda self, *a: f(*a))


def setting(ctx, noisy=True):
    c, lc = halos.plain_lens(ctx)
    inf = ctx.fn("z_infall_model", lambda m, *k: 2.0, lo=ZL, hi=12)
    asked = []

    class Infall(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, m):
            asked.append(m)
            return inf(m, len(asked)) if noisy else inf(m)
    lc.setup_infall_model(Infall, {})
    # density and scale radius: any positive functions of mass, concentration and redshift (the real ones: P16)
    rho = ctx.fn("rho_s", lambda m_, c_, z_, p: 1e7 * (1 + z_), lo=1, hi=1e12)
    rs = ctx.fn("r_s", lambda m_, c_, z_, p: 0.5 / (1 + z_), lo=1e-3, hi=100)

    def nfw(m_, c_, z_, pseudo_nfw=False):
        p = 1 if pseudo_nfw else 0
        return rho(m_, c_, z_, p), rs(m_, c_, z_, p), c_ * rs(m_, c_, z_, p)
    lc.NFW_params_physical = nfw
    # enclosed masses: linear in the density, otherwise any positive function
    enclosed(ctx, "nfw", "NFW", "nfw_mass", 2)
    # (the truncated one smooth in the truncation radius, which the lens model arguments carry rounded)
    enclosed(ctx, "splcore", "SPLCORE", "spl_mass", 1)
    enclosed(ctx, "pseudo_double_powerlaw", "PseudoDoublePowerlaw", "gnfw_mass", 2)
    K = ctx.real("k_mass", 0.1, 10)
    ctx.patch(ctx.get("lenstronomy.LensModel.Profiles.tnfw", "TNFW"), "mass_3d", lambda self, r, Rs, rho0, tau: rho0 * K * Rs ** 3 * r / (r + Rs) * tau / (tau + 1))
    return c, lc, asked, inf


@harness("NFW, truncated, cored, pseudo-Jaffe, generalized and power-law halos; any mass; subhalo and field; models that answer differently on every call; every first query, three second ones (every one in the thorough tier), all queries afterwards", max_paths=1500, budget=120)
def order(ctx):
    cnfw(ctx)
    kind = ctx.choice("kind", list(OWN))
    sub = ctx.flag("subhalo")
    c, lc, asked, inf = setting(ctx)
    conc, tr = halos.Conc(ctx, noisy=True), halos.Trunc(ctx, noisy=True)
    m = ctx.real("m", 1e5, 1e11)
    z = ZL if sub else 1.3
    h = halos.make(ctx, kind, lc, 0.3, -0.2, z, m, sub, 0.5, conc, tr)
    own = [q for q in OWN[kind] if sub or q != "bound"]
    own += ["infall"] if sub else []
    q1 = ctx.choice("first", own)
    q2 = ctx.choice("second", own if ctx.thorough else [q for q in ("args", "lens", "mass") if q in own])
    r1 = QUERIES[q1](h)
    r2 = QUERIES[q2](h)
    later = {q: QUERIES[q](h) for q in own}
    agree(ctx, r1, later[q1], "asking again gives the same answer: " + q1, rtol=TOL[q1 == "bound"])
    agree(ctx, r2, later[q2], "asking again gives the same answer: " + q2, rtol=TOL[q2 == "bound"])
    ze = inf(m, 1) if sub else z
    ctx.close(later["z_eval"], ze, "subhalos evaluated at infall, field halos at their own redshift")
    con = conc.f(m, ze, 1)
    if "c" in later:
        ctx.close(later["c"], con, "concentration of the halo's mass at that redshift")
    a = later["args"]
    ctx.close(a[0] if isinstance(a, tuple) else a, con, "the profile uses the halo's concentration")
    ctx.check(len(conc.asked) == 1, "one draw of the concentration per halo")
    ctx.check(len(asked) == (1 if sub else 0), "one draw of the infall redshift per subhalo, none for field halos")
    if kind == "TNFW":
        ctx.close(a[1], tr.f(m, z, 1), "truncation radius from the model")
        ctx.check(len(tr.asked) == 1 and tr.asked[0] is h, "one draw of the truncation radius per halo")
    if "nfw" in later:
        agree(ctx, later["nfw"], lc.NFW_params_physical(m, con, ze, pseudo_nfw=kind == "GNFW"), "NFW parameters of the mass, concentration and redshift")


OPS = {
    "once": [(1, {})], "twice": [(1, {}), (2, {})], "forced": [(1, {}), (2, {"force": True})], "not recorded": [(1, {"log": False}), (2, {})],
    "first forced": [(1, {"force": True}), (2, {})], "first forced, not recorded": [(1, {"force": True, "log": False}), (2, {}), (3, {})],
    "second forced and not recorded": [(1, {}), (2, {"force": True, "log": False}), (3, {})],
}
EFFECT = {"once": [1], "twice": [1], "forced": [1, 2], "not recorded": [1, 2], "first forced": [1], "first forced, not recorded": [1, 2], "second forced and not recorded": [1, 2]}
SCALED = {  # quantities and the power of the normalisation they carry
    "NFW": {"density": 1, "mass": 1, "mass inside 1 kpc": 1, "vmax": 0.5, "lens": 1},
    "TNFW": {"density": 1, "mass": 1, "mass inside 1 kpc": 1, "vmax": 0.5, "lens": 1, "physical": 1, "bound": 1},
    "CNFW": {"lens": 1},
    "PARAMS": {"density": 1, "mass": 1, "mass inside 1 kpc": 1, "vmax": 0.5, "lens": 1, "physical": 1, "bound": 1},
}


def norm_of(q, v):
    """the numbers of a result that scale with the normalisation, and those that do not"""
    if q == "lens":
        return [(k["alpha_Rs"], ) for k in v], [[k[x] for x in sorted(k) if x != "alpha_Rs"] for k in v]
    if q == "physical":
        return [(v["rhos"],)], [[v[x] for x in sorted(v) if x != "rhos"]]
    return [(v,)], []


def compare(ctx, kind, h, ref, factor, label, order=None):
    for q in (order or SCALED[kind]):
        p = SCALED[kind][q]
        v, w = QUERIES[q](h), QUERIES[q](ref)
        (s, rest), (s0, rest0) = norm_of(q, v), norm_of(q, w)
        for (a,), (b,) in zip(s, s0):
            if p == 0.5:
                ctx.close(a ** 2, b ** 2 * factor, label + ": " + q, rtol=1e-8)
            else:
                ctx.close(a, b * factor, label + ": " + q, rtol=TOL[1] if q == "bound" else 1e-8, atol=1e-30)
        agree(ctx, rest, rest0, "rescaling changes nothing else: " + q)
    agree(ctx, h.profile_args, ref.profile_args, "rescaling keeps the profile arguments", )
    agree(ctx, h.nfw_params, ref.nfw_params, "rescaling keeps the NFW parameters")


def pair(ctx, kind, lc, sub, m, tr=None, tr0=None):
    conc = halos.Conc(ctx)
    tr0 = tr0 or halos.Trunc(ctx)
    mk = lambda t: halos.make(ctx, kind, lc, 0.3, -0.2, ZL if sub else 1.3, m, sub, 0.5, conc, t)
    return mk(tr or tr0), mk(tr0)


def bounded(kind, sub):
    return [q for q in SCALED[kind] if sub or q != "bound"]


@harness("NFW, truncated, cored and imported truncated halos; any mass; subhalo and field; up to three rescalings by any factors, forced or not, recorded or not; any one quantity queried before", max_paths=1500, budget=120)
def rescaled(ctx):
    cnfw(ctx)
    kind = ctx.choice("kind", list(SCALED))
    sub = True if kind == "PARAMS" else ctx.flag("subhalo")
    c, lc, asked, inf = setting(ctx, noisy=False)
    m = ctx.real("m", 1e5, 1e11)
    h, ref = pair(ctx, kind, lc, sub, m)
    f = {i: ctx.real("f%d" % i, 0.01, 3) for i in (1, 2, 3)}
    before = ctx.choice("before", ["nothing"] + bounded(kind, sub))
    if before != "nothing":
        QUERIES[before](h)
    ops = ctx.choice("operations", list(OPS))
    for i, kw in OPS[ops]:
        h.rescale_normalization(f[i], **kw)
    factor = 1.0
    for i in EFFECT[ops]:
        factor = factor * f[i]
    ctx.close(h.rescale_norm, factor, "normalisation rescaled once, unless forced")
    compare(ctx, kind, h, ref, factor, "rescaled once", bounded(kind, sub))
    compare(ctx, kind, h, ref, factor, "rescaled once, asked again", bounded(kind, sub))


@harness("truncated halos with a truncation model that rescales the normalisation by any factor; any mass; subhalo and field; any quantity queried first, second", max_paths=1500, budget=90)
def tidal(ctx):
    sub = ctx.flag("subhalo")
    c, lc, asked, inf = setting(ctx, noisy=False)
    m = ctx.real("m", 1e5, 1e11)
    f = ctx.real("f", 0.01, 1)
    h, ref = pair(ctx, "TNFW", lc, sub, m, tr=Rescaling(ctx, f))
    qs = bounded("TNFW", sub)
    q1, q2 = ctx.choice("first", qs + ["c"]), ctx.choice("second", qs)
    r1 = QUERIES[q1](h)
    compare(ctx, "TNFW", h, ref, f, "stripped once", [q2] + qs)
    agree(ctx, r1, QUERIES[q1](h), "first answer stands: " + q1, rtol=TOL[q1 == "bound"])
    h.rescale_normalization(f)
    ctx.close(h.rescale_norm, f, "a stripped halo is not rescaled again")
    compare(ctx, "TNFW", h, ref, f, "stripped once", qs)


@harness("infall redshift set by hand (any redshift from the lens to 12) or drawn; bound mass set by hand; lens at 0.5")
def by_hand(ctx):
    c, lc, asked, inf = setting(ctx)
    m = ctx.real("m", 1e5, 1e11)
    conc = halos.Conc(ctx)
    kind = ctx.choice("kind", ["NFW", "TNFW", "CNFW", "PJAFFE", "GNFW"])
    h = halos.make(ctx, kind, lc, 0.3, -0.2, ZL, m, True, 0.5, conc)
    z = ctx.real("z_infall", ZL, 12)
    h.set_infall_redshift(z)
    ctx.same(h.z_infall, z) or ctx.check(False, "infall redshift set by hand")
    ctx.close(h.c, conc.f(m, z), "concentration at the infall redshift set by hand")
    ctx.check(asked == [], "no infall redshift drawn when it was set by hand")
    if kind != "TNFW":
        b = ctx.real("bound", 1, 1e11)
        h.set_bound_mass(b)
        ctx.same(h.bound_mass, b) or ctx.check(False, "bound mass set by hand")
    g = halos.make(ctx, kind, lc, 0.3, -0.2, 1.3, m, False, 0.5, conc)
    ctx.raises(lambda: g.set_infall_redshift(z), Exception, label="field halos have no infall redshift to set")
    ctx.check(g.time_since_infall is None, "field halos have no time since infall")
    ctx.raises(lambda: g.bound_mass, Exception, label="no bound mass without a tidal truncation")


@harness("hybrid of a truncated and a cored subhalo or field halo with models that answer differently on every call")
def hybrid(ctx):
    sub = ctx.flag("subhalo")
    c, lc, asked, inf = setting(ctx)
    conc, tr = halos.Conc(ctx, noisy=True), halos.Trunc(ctx, noisy=True)
    m = ctx.real("m", 1e5, 1e11)
    z = ZL if sub else 1.3
    t = halos.make(ctx, "TNFW", lc, 0.3, -0.2, z, m, sub, 0.5, conc, tr)
    tc = halos.make(ctx, "CNFW", lc, 0.3, -0.2, z, m, sub, 0.5, conc, tr)
    early = ctx.flag("queried before")
    if early:
        t.nfw_params
    y = ctx.get(halos.BASE + "NFW_core_trunc", "Hybrid")(t, tc, 0.3)
    ctx.close(y.c, t.c, "one concentration for all components")
    ctx.close(tc.c, t.c, "one concentration for all components")
    if sub:
        ctx.close(tc.z_infall, t.z_infall, "one infall redshift for all components")
        ctx.close(y.z_infall, t.z_infall, "one infall redshift for all components")
        ctx.check(len(asked) == 1, "one draw of the infall redshift per subhalo")
    ctx.check(len(conc.asked) == 1, "one draw of the concentration per halo")
    rho, rs, r200 = y.nfw_params
    agree(ctx, [[rho[0], rs[0], r200[0]], [rho[1], rs[1], r200[1]]], [list(t.nfw_params), list(tc.nfw_params)], "parameters of both components")
    ctx.check(len(y.profile_args) == 2, "arguments of both components")
    ctx.same(y.profile_args[0][1], t.profile_args[1]) or ctx.check(False, "arguments of both components")
