"""P27 batch evaluation: warmed caches agree with the halo-by-halo calculation"""
from symx.api import registry
from harness import world, halos
from harness.p15 import Background
from harness.p21 import Astropy, colossus, cold
from harness.p23 import FITS, Truncated
import numpy as np
import math
HARNESSES, harness = registry()
B = "pyHalo.Halos.batch_halo_util"
CON = "pyHalo.Halos.concentration"
TID = "pyHalo.Halos.tidal_truncation"


class Sky(Background):
    def critical_density(self, z):
        if not hasattr(z, "t") and z == 0:
            import astropy.units as un
            return 8.558e-30 * un.g / un.cm ** 3
        return Background.critical_density(self, z)


def lens(ctx, zl=0.5, zs=2.0, infall=None, kw=None, exact=True):
    """a real LensCosmo on the real cosmology class over closed-form distances and ages"""
    mod = ctx.load("pyHalo.Cosmology.cosmology")
    if exact:
        ctx.exact_tables()
    elif ctx.symbolic and hasattr(mod, "interp1d"):
        orig = mod.interp1d
        age = (lambda z: 13.0 - 0.3 * z) if exact is None else ctx.fn("age", lambda z: Sky().age(z).value, mono="dec", lo=0, hi=13)

        def interp(x, y, *a, **k):
            """a table of ages as any decreasing function (its accuracy is P15)"""
            x_ = np.array(x, dtype=float)
            if x_.min() == 0 and np.allclose(np.array(y, dtype=float), Sky().age(x_).value, rtol=1e-6):
                return lambda z: np.array([age(v) for v in z]) if np.ndim(z) else age(z)
            return orig(x, y, *a, **k)
        ctx.patch(mod, "interp1d", interp)
    c = ctx.get("pyHalo.Cosmology.cosmology", "Cosmology")(astropy_instance=Sky())
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    if infall:
        lc.setup_infall_model(infall, kw or {})
    return lc


def one(v):
    return np.ravel(np.array(v, dtype=object))[0]


@harness("two masses 1e5 to 1e12, concentrations 1.2 to 60, redshifts 0 to 5; ordinary and cored normalisation, together or one for both", prove_ms=10000)
def parameters(ctx):
    lc = lens(ctx)
    f = ctx.get(B, "nfw_params_physical_vectorized")
    ms = [ctx.real("w%d" % i, 1, 10) * 10.0 ** k for i, k in enumerate(ctx.choice("mass", [(5, 11), (8, 8)]))]
    cs = ctx.reals("c", 2, 1.2, 60)
    zs = [ctx.real("z", 0, 5), 0.75]
    pseudo = ctx.choice("pseudo", [False, True, [True, False]])
    got = f(lc, ms, cs, zs, pseudo)
    for i in range(2):
        p = pseudo[i] if isinstance(pseudo, list) else pseudo
        ref = lc.NFW_params_physical(ms[i], cs[i], zs[i], p)
        for g, r, name in zip(got, ref, ("density", "scale radius", "virial radius")):
            ctx.close(g[i], r, name + " as for a single halo", rtol=1e-9)
    ctx.observe("rs", got[1][0])


def group(ctx, lc, co, tr=None, ms=None):
    """field halos and subhalos of several profiles, two at the same and one at another redshift; two copies"""
    ms = ms or [ctx.real("m%d" % i, 1e6, 1e10) for i in range(4)]

    def build():
        hs = [halos.make(ctx, "NFW", lc, 0.1, 0.2, 0.75, mass=ms[0], sub=False, conc=co, trunc=tr, tag=10.5),
              halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.75, mass=ms[1], sub=False, conc=co, trunc=tr, tag=11.5),
              halos.make(ctx, "TNFW", lc, -0.1, 0.2, 0.5, mass=ms[2], sub=True, conc=co, trunc=tr, tag=12.5),
              halos.make(ctx, "NFW", lc, -0.1, 0.4, 1.25, mass=ms[3], sub=False, conc=co, trunc=tr, tag=13.5)]
        hs[2].set_infall_redshift(1.25)
        return hs
    return build


@harness("four halos of two profiles on three redshifts, in any of three orders, concentration any function of mass and redshift; one concentration possibly known before", prove_ms=10000)
def nfw_halos(ctx):
    lc = lens(ctx)
    co = halos.Conc(ctx)
    build = group(ctx, lc, co)
    a, b = build(), build()
    order = ctx.choice("order", [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0]])
    known = ctx.choice("known", [None, 1])
    black = halos.make(ctx, "PT_MASS", lc, 0.1, 0.2, 0.75, mass=1e7, sub=False)
    if known is not None:
        first = a[known].c
        b[known].c
    ctx.get(B, "precompute_nfw_params")([a[i] for i in order] + [black])
    for i in order:
        n = len(co.asked)
        ctx.close(a[i].c, b[i].c, "concentration as halo by halo", rtol=1e-9)
        for g, r, name in zip(a[i].nfw_params, b[i].nfw_params, ("density", "scale radius", "virial radius")):
            ctx.close(g, r, name + " as halo by halo", rtol=1e-9)
        ctx.close(a[i].mass, b[i].mass, "mass unchanged", rtol=0)
    if known is not None:
        ctx.close(a[known].c, first, "a concentration known before is kept", rtol=0)
    asked = len(co.asked)
    [a[i].c for i in order]
    ctx.check(len(co.asked) == asked, "concentrations evaluated once")
    ctx.observe("rs", a[order[0]].nfw_params[1])


@harness("three halos on two redshifts, a concentration relation that answers differently each time it is asked; any one evaluated before", prove_ms=10000)
def kept(ctx):
    lc = lens(ctx)
    co = halos.Conc(ctx, noisy=True)
    hs = group(ctx, lc, co)()[:3]
    known = ctx.choice("known", [0, 1, 2])
    c, par = hs[known].c, list(hs[known].nfw_params)
    ctx.get(B, ctx.choice("batch", ["precompute_concentrations", "precompute_nfw_params"]))(hs)
    ctx.close(hs[known].c, c, "a concentration known before is kept", rtol=0)
    for g, r in zip(hs[known].nfw_params, par):
        ctx.close(g, r, "NFW parameters known before are kept", rtol=1e-9)
    ctx.check(len(co.asked) == 3, "every concentration evaluated once")
    for h in hs:
        for g, r in zip(h.nfw_params, lc.NFW_params_physical(h.mass, h.c, h.z_eval, False)):
            ctx.close(g, r, "NFW parameters of the halo's own concentration", rtol=1e-9)
    ctx.observe("c", c)


def relation(ctx, kind, scatter):
    """one real concentration model of each kind on stand-in relations; returns the model"""
    s = 0.25
    A = Astropy(ctx)
    f = ctx.fn("relation", lambda m, z: 6 * (m / 1e8) ** -0.05 / (1 + z) ** 0.5, lo=0.5, hi=300)
    nu = ctx.fn("nu", lambda m, z: 0.3 * (m / 1e8) ** 0.08 * (1 + z), lo=0.01, hi=50)
    colossus(ctx, f, nu)
    if kind in ("DiemerJoyce", "Ludlow"):
        return ctx.get(CON, "Concentration" + kind)(A, scatter=scatter, scatter_dex=s, use_interpolation_table=False)
    if kind == "PeakHeight":
        return ctx.get(CON, "ConcentrationPeakHeight")(A, c0=17.0, zeta=-0.25, beta=0.75, scatter=scatter, scatter_dex=s)
    if kind == "Constant":
        return ctx.get(CON, "ConcentrationConstant")(A, 7.5)
    if kind == "custom":
        return halos.Conc(ctx)
    common = dict(concentration_cdm_class=ctx.get(CON, "ConcentrationPeakHeight"), log_mc=7.0, scatter=scatter, scatter_dex=s, kwargs_cdm={"c0": 17.0, "zeta": -0.25, "beta": 0.75})
    if kind == "Polynomial":
        return ctx.get(CON, "ConcentrationWDMPolynomial")(A, c_scale=60.0, c_power=-0.25, c_power_inner=1.0, **common)
    return ctx.get(CON, "ConcentrationWDMHyperbolic")(A, a=-0.5, b=0.5, **common)


@harness("two or three masses 1e5 to 1e10 at one redshift; every concentration model on any underlying relation; scatter on, off, or switched off in the call (same random numbers)", prove_ms=10000)
def concentrations(ctx):
    kind = ctx.choice("model", ["DiemerJoyce", "Ludlow", "PeakHeight", "Constant", "custom", "Polynomial", "Hyperbolic"])
    scatter = ctx.flag("scatter")
    model = relation(ctx, kind, scatter)
    z = ctx.choice("z", [0.5, 2.0])
    ms = [ctx.real("w%d" % i, 1, 10) * k for i, k in enumerate([1e5, 1e9])]
    n = len(ctx.rng.draws)
    off = scatter and kind in ("DiemerJoyce", "Ludlow", "PeakHeight") and ctx.flag("off in the call")
    kw = {"force_no_scatter": True} if off else {}
    got = ctx.get(B, "batch_nfw_concentration")(model, np.array(ms), z, **kw)
    ctx.check(len(got) == 2, "one concentration per mass")
    u = ctx.rng.draws[n:]
    for i in range(2):
        ctx.rng.feed = u[i:i + 1]
        ctx.close(got[i], model.nfw_concentration(ms[i], z, **kw), "concentration as for a single halo", rtol=1e-9)
        ctx.check(not ctx.rng.feed, "one draw of the scatter per halo")
    ctx.check(len(u) == (2 if scatter and not off and kind not in ("Constant", "custom") else 0), "one draw of the scatter per halo")
    ctx.observe("c", got[0])


def published(model, m, host):
    """mean and width of the infall redshift relative to the host"""
    import numpy
    k = {"HYBRID_INFALL": ((3.35549949, 3.20546995, -2.91075587), (1.97880156, 4.17390702, -2.14428416)),
         "DIRECT_INFALL": ((3.3064042, 4.528511, -3.84346439), (1.94929171, 4.91504583, -2.4187402))}[model]
    x = -numpy.log10(m / host)
    return [a / (1 + b * x ** c) for a, b, c in k]


class Any(object):
    """a user-defined infall model: any redshift beyond the lens, a new one for every halo"""
    name = "user"
    ctx = None

    def __init__(self, z_lens, *a, **k):
        self.z = z_lens
        self.n = 0

    def __call__(self, m):
        self.n += 1
        return self.z + self.ctx.real("delay of the %dth" % self.n, 0, 8)


@harness("two subhalos and a field halo; calibrated, other and user-defined infall models; masses below, inside and above the calibrated range of mass ratios; one infall redshift possibly set before (also nearer than the halo)", prove_ms=10000)
def infall(ctx):
    name, ks, given = ctx.choice("case", [("HYBRID_INFALL", [3.0, 9.0], None), ("HYBRID_INFALL", [12.7, 3.0], 1.25), ("DIRECT_INFALL", [3.0, 9.0], None), ("DIRECT_INFALL", [12.7, 9.0], 0.25),
                                          ("GALACTICUS_2024", [3.0, 9.0], 1.25), ("INFALL_ZLENS", [9.0, 9.0], None), (Any, [9.0, 9.0], 1.25), (Any, [9.0, 9.0], 0.25), (Any, [9.0, 9.0], None)])
    Any.ctx = ctx
    lc = lens(ctx, infall=name, kw={"log_m_host": 13.0} if name in ("HYBRID_INFALL", "DIRECT_INFALL") else {}, exact=None if name == "DIRECT_INFALL" else False)
    logs = [k + ctx.real("l%d" % i, 0, 0.25) for i, k in enumerate(ks)]
    ms = [10.0 ** l for l in logs]
    co = halos.Conc(ctx)
    hs = [halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.5, mass=m, sub=True, conc=co, tag=10.5 + i) for i, m in enumerate(ms)]
    field = halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.75, mass=1e8, sub=False, conc=co, tag=20.5)
    if given is not None:
        hs[1].set_infall_redshift(given)
    n, d = len(ctx.rng.log), len(ctx.rng.draws)
    ctx.get(B, "precompute_infall_times")(hs[:1] + [field] + hs[1:], lc)
    todo = [h for h in hs if given is None or h is not hs[1]]
    us = ctx.rng.draws[d:]
    entries = ctx.rng.log[n:]
    kinds = {e[0] for e in entries}
    if name in ("HYBRID_INFALL", "DIRECT_INFALL"):
        ctx.check(len(us) == len(todo), "one draw per halo")
        k = 0
        for kind, par, val in entries:
            for i, v in enumerate(np.ravel(np.array(val, dtype=object))):
                h = todo[k]
                ratio = ctx.min(ctx.max(h.mass / 1e13, 10 ** -5.0), 10 ** -0.5)
                if kind == "truncnorm":
                    a, b, mu, s = [q if not np.ndim(q) else np.ravel(q)[i] for q in par]
                    m_, s_ = published(name, ratio, 1.0)
                    ctx.close(mu, m_, "published mean of the infall redshift", rtol=1e-7)
                    ctx.close(s, s_, "published width of the infall redshift", rtol=1e-7)
                    ctx.close(a, (0.0 - mu) / s, "not before the lens redshift", rtol=1e-9)
                    ctx.close(b, (15.0 - mu) / s, "at most 15 beyond the lens", rtol=1e-9)
                    ctx.close(h.z_infall, 0.5 + v, "infall redshift is the lens redshift plus the draw", rtol=1e-9)
                else:
                    ctx.rng.feed = [us[k]]
                    ctx.close(h.z_infall, lc.z_accreted_from_zlens(h.mass), "infall redshift as for a single halo", rtol=1e-9)
                k += 1
        ctx.check(k == len(todo), "one draw per halo")
    else:
        if name == "GALACTICUS_2024":
            ctx.check(len(us) == len(todo), "one draw per halo")
            for h, u in zip(todo, us):
                ctx.rng.feed = [u]
                ctx.close(h.z_infall, lc.z_accreted_from_zlens(h.mass), "infall redshift as for a single halo", rtol=1e-9)
        elif name == "INFALL_ZLENS":
            for h in todo:
                ctx.close(h.z_infall, 0.5, "infall redshift of the model", rtol=0)
        else:
            for i, h in enumerate(todo):
                ctx.close(h.z_infall, 0.5 + ctx.real("delay of the %dth" % (i + 1), 0, 8), "infall redshift of the model", rtol=1e-12)
    if given is not None:
        ctx.close(hs[1].z_infall, given, "an infall redshift set before is kept", rtol=0)
    for i in range(len(hs)):
        for j in range(i):
            ctx.assume(ctx.abs(hs[i].z_infall - hs[j].z_infall) >= 1e-6 if name != "INFALL_ZLENS" else True)
    for h in hs:
        if bool(h.z_infall <= 20):
            ctx.close(h.time_since_infall, lc.cosmo.halo_age(h.z, zform=h.z_infall), "time since infall as for a single halo", rtol=1e-9, atol=1e-12)
        z = h.z_infall
        ctx.le(0, h.time_since_infall, "infall in the past")
        ctx.close(h.z_infall, z, "one infall redshift per halo", rtol=0)
    ctx.observe("z", hs[0].z_infall)


@harness("two halos per call; each calibrated fit with one input anywhere inside a narrow window or beyond either end of its range by up to ten times the range; every draw", prove_ms=10000, budget=150)
def mass_loss(ctx):
    name = ctx.choice("fit", ["time", "redshift"])
    fit = FITS[name]
    f = ctx.get("pyHalo.Halos.galacticus_truncation.interp_mass_loss", fit.cls)(**fit.kw)
    t, c, h = [x[0] + 0.41 * (x[1] - x[0]) for x in (fit.t, fit.c, fit.h)]
    where = ctx.choice("input", [(w, s) for w in "tch" for s in ("in", "below", "above")])
    lo, hi = getattr(fit, where[0])
    v = {"t": t, "c": c, "h": h}
    if where[1] == "in":
        v[where[0]] = v[where[0]] + ctx.real("inside", 0, 0.05)
    else:
        w = ctx.real("beyond", 1e-9, 10) * (hi - lo)
        v[where[0]] = hi + w if where[1] == "above" else lo - w
    cs, ts = [v["c"], 1.1], [v["t"], 3.3]
    d = len(ctx.rng.draws)
    got = ctx.get(B, "galacticus_mass_loss_vectorized")(f, np.array(cs), np.array(ts), v["h"])
    u = ctx.rng.draws[d:]
    ctx.check(len(u) == 2 and len(got) == 2, "one draw per halo")
    for i in range(2):
        ctx.rng.feed = [u[i]]
        ctx.close(got[i], f(cs[i], ts[i], v["h"]), "bound fraction as for a single halo", rtol=1e-7, atol=1e-9)
        ctx.le(got[i], 0, "never more than the infall mass")
    ctx.observe("f", got[0])


@harness("two subhalos per call: bound fractions 1e-10 to 0.9 of the infall mass, infall mass 1e6 and 1e10, concentrations 2 to 100; new tables, or after an earlier call with masses inside or beyond the tables", prove_ms=10000)
def truncation(ctx):
    mod = ctx.load("pyHalo.Halos.galacticus_truncation.transfer_function_density_profile")
    f = ctx.get(B, "compute_r_te_and_f_t_vectorized")
    k1, k2, c1, c2 = ctx.choice("case", [(1e-4, 0.3, 2.0, 32.0), (0.05, 0.05, 11.0, 11.0), (0.3, 1e-3, 8.0, 100.0), (0.9, 0.6, 100.0, 2.0), (1e-9, 0.3, 12.0, 11.0), (0.3, 1e-10, 12.0, 11.0)])
    mi = [1e6, 1e10]
    mb = [ctx.real("w%d" % i, 1, 1.1) * k * m for i, (k, m) in enumerate(zip((k1, k2), mi))]
    R, c = [5.0, 100.0], [c1, c2]
    earlier = ctx.choice("earlier call", [None, "beyond the tables", "inside the tables"])
    if earlier:
        m0 = (1e-9 if "beyond" in earlier else 0.2) * 1e8
        f([m0], [1e8], [60.0], [12.0])
        mod.compute_r_te_and_f_t(m0, 1e8, 60.0, 12.0)
    rt, ft = f(np.array(mb), mi, R, c)
    ctx.check(len(rt) == 2 and len(ft) == 2, "one result per halo")
    for i in range(2):
        r, t = mod.compute_r_te_and_f_t(mb[i], mi[i], R[i], c[i])
        ctx.close(ft[i], one(t), "density transfer as for a single halo", rtol=1e-7)
        ctx.close(rt[i], one(r), "truncation radius as for a single halo", rtol=1e-5)
    ctx.observe("f", ft[0])


TIDAL = {"TruncationGalacticus": "InterpGalacticus", "TruncationGalacticusZinfall": "InterpGalacticusZinfall"}


def tidal(ctx, lc, name):
    """a real truncation model whose mass loss and density transfer are any functions, the same ones for a halo and for a batch"""
    from harness import p23
    mod, tid = ctx.load(B), ctx.load(TID)
    loss = ctx.fn("log10 bound fraction", lambda c, t, h: -0.3 - 0.05 * t - 0.01 * c - 0.001 * h, lo=-5, hi=0)
    tr = Truncated(ctx)
    ctx.patch(ctx.get(p23.I, TIDAL[name]), "__call__", lambda self, c, t, h: loss(c, t, h))
    if not all(hasattr(mod, f) for f in ("galacticus_mass_loss_vectorized", "compute_r_te_and_f_t_vectorized")) or not hasattr(tid, "compute_r_te_and_f_t"):
        ctx.gap("mass loss or density transfer are not called through their public functions")
    ctx.patch(mod, "galacticus_mass_loss_vectorized", lambda interp, c, t, h: np.array([loss(a, b, h) for a, b in zip(c, t)]))

    def many(mb, m, r, c):
        out = [tr(*v) for v in zip(mb, m, r, c)]
        return np.array([o[0] for o in out]), np.array([o[1] for o in out])
    ctx.patch(mod, "compute_r_te_and_f_t_vectorized", many)
    ctx.patch(tid, "compute_r_te_and_f_t", tr)
    ctx.patch(tid, "tau_mf_interpolation", lambda: None)
    return ctx.get(TID, name)(lc, 5.0)


QUERY = [("infall redshift", lambda h: [h.z_infall]), ("concentration", lambda h: [h.c]), ("bound mass of the tidal model", lambda h: [h.bound_mass_galacticus_definition]),
         ("profile", lambda h: h.profile_args), ("normalisation", lambda h: [h.rescale_norm]), ("NFW parameters", lambda h: h.nfw_params),
         ("physical parameters", lambda h: [h.params_physical[k] for k in ("rhos", "rs", "r200", "r_trunc_kpc")]),
         ("lensing arguments", lambda h: [h.lenstronomy_params[0][0][k] for k in ("alpha_Rs", "Rs", "r_trunc", "center_x", "center_y")])]


def agree(ctx, a, b, queries=QUERY):
    for name, q in queries:
        for g, r in zip(q(a), q(b)):
            ctx.close(g, r, name + " as for a single halo", rtol=1e-9, atol=2e-10 if name == "lensing arguments" else 0)


@harness("three subhalos with free mass, infall redshifts set before; one with a bound mass assigned, or evaluated before the batch; both supported models with any mass loss and density transfer; other models refused", prove_ms=10000)
def tidal_subhalos(ctx):
    lc = lens(ctx)
    name = ctx.choice("model", sorted(TIDAL))
    model = tidal(ctx, lc, name)
    co = halos.Conc(ctx)
    how = ctx.choice("case", ["plain", "assigned", "evaluated", "unsupported"])
    if how == "unsupported":
        h = halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.5, mass=1e8, sub=True, conc=co, trunc=halos.Trunc(ctx))
        h.set_infall_redshift(1.5)
        ctx.raises(lambda: ctx.get(B, "precompute_tnfw_subhalos")([h], ctx.get(TID, "TruncationRN")(lc)), label="unsupported truncation model refused")
        return
    S = ctx.get(halos.BASE + "TNFW", "TNFWSubhalo")
    ms = [ctx.real("w%d" % i, 1, 10) * k for i, k in enumerate((1e6, 1e8, 1e9))]

    def build():
        hs = []
        for i, m in enumerate(ms):
            if i == 1 and how == "assigned":
                h = S.simple_setup(m, 0.25, 1.25, 0.3, 0.4, 0.5, lc, concentration_model=co)
                h.set_infall_redshift(1.25)
            else:
                h = halos.make(ctx, "TNFW", lc, 0.1 * i, -0.2, 0.5, mass=m, sub=True, conc=co, trunc=model, tag=10.5 + i)
                h.set_infall_redshift([1.25, 1.25, 3.0][i])
            hs.append(h)
        return hs
    a, b = build(), build()
    field = halos.make(ctx, "TNFW", lc, 0.1, 0.2, 0.75, mass=1e8, sub=False, conc=co, trunc=halos.Trunc(ctx))
    if how == "evaluated":
        a[1].lenstronomy_params
        b[1].lenstronomy_params
    ctx.get(B, "precompute_tnfw_subhalos")([a[2], field, a[0], a[1]], model)
    for x, y in zip(a, b):
        agree(ctx, x, y)
        ctx.close(x.mass, y.mass, "infall mass unchanged", rtol=0)
    ctx.close(field.rescale_norm, 1.0, "field halo untouched", rtol=0)
    ctx.observe("rt", a[0].profile_args[1])


@harness("three field halos with free mass at two redshifts; truncation at a multiple of the scale radius, at an overdensity, and by any other model; one possibly evaluated before", prove_ms=10000)
def field_halos(ctx):
    lc = lens(ctx)
    co = halos.Conc(ctx)
    kind = ctx.choice("model", ["multiple", "overdensity", "other"])
    if kind == "multiple":
        model = ctx.get(TID, "Multiple_RS")(lc, ctx.real("tau", 0.1, 50))
    elif kind == "overdensity":
        model = ctx.get(TID, "TruncationRN")(lc, ctx.real("N", 1, 1000))
    else:
        model = halos.Trunc(ctx)
    ms = [ctx.real("w%d" % i, 1, 10) * k for i, k in enumerate((1e6, 1e8, 1e9))]
    zs = ctx.choice("z", [(0.25, 1.25, 0.25), (0.25, 0.5, 1.75)])

    def build():
        return [halos.make(ctx, "TNFW", lc, 0.1 * i, -0.2, z, mass=m, sub=False, conc=co, trunc=model, tag=10.5 + i) for i, (m, z) in enumerate(zip(ms, zs))]
    a, b = build(), build()
    if ctx.flag("evaluated before"):
        a[1].lenstronomy_params
        b[1].lenstronomy_params
    ctx.get(B, "precompute_tnfw_field_halos")(a, model)
    for x, y in zip(a, b):
        agree(ctx, x, y, [q for q in QUERY if "infall" not in q[0] and "tidal" not in q[0]])
    ctx.observe("rt", a[0].profile_args[1])


@harness("two subhalos with any truncation radius 0.01 to 100 scale radii and any density transfer; bound mass inside the virial radius as the halo reports it", prove_ms=10000)
def bound_masses(ctx):
    lc = lens(ctx)
    co = halos.Conc(ctx)
    name = "TruncationGalacticus"
    model = tidal(ctx, lc, name)
    ms = [ctx.real("w%d" % i, 1, 10) * k for i, k in enumerate((1e6, 1e9))]

    def build():
        hs = [halos.make(ctx, "TNFW", lc, 0.1 * i, -0.2, 0.5, mass=m, sub=True, conc=co, trunc=model, tag=10.5 + i) for i, m in enumerate(ms)]
        [h.set_infall_redshift(z) for h, z in zip(hs, (1.25, 2.5))]
        return hs
    a, b = build(), build()
    ctx.get(B, "precompute_tnfw_subhalos")(a, model)
    stored = []
    for h in a:
        h.set_bound_mass = lambda m, h=h: stored.append((h, m))
    ctx.get(B, "precompute_tnfw_bound_masses")(a)
    ctx.check([h for h, _ in stored] == a, "one bound mass for every subhalo")
    for (h, m), r in zip(stored, b):
        r.profile_args
        ctx.close(m, r.bound_mass, "bound mass as for a single halo", rtol=1e-9)
        ctx.close(h.bound_mass, r.bound_mass, "bound mass as for a single halo", rtol=1e-9)
    ctx.observe("m", stored[0][1])


def profile(ctx):
    """density of the cored profile as a simple function of its arguments (the stand-in library profile has no closed form to agree with)"""
    T = ctx.get("lenstronomy.LensModel.Profiles.nfw_core_truncated", "TNFWC")
    seen = []

    def amp(alpha, Rs, rc, rt):
        seen.append((one(Rs), one(rc), one(rt)))
        return alpha * (1 + 3 * rt)
    ctx.patch(T, "alpha2rho0", lambda self, alpha_Rs, Rs, r_core, r_trunc: amp(alpha_Rs, Rs, r_core, r_trunc))
    ctx.patch(T, "density", lambda self, r, Rs, rho0, r_core, r_trunc: rho0 * r ** -2.0)
    ctx.patch(T, "density_lens", lambda self, r, Rs, alpha_Rs, r_core, r_trunc: amp(alpha_Rs, Rs, r_core, r_trunc) * r ** -2.0)
    return seen


@harness("a subhalo and a field halo (or two of either) of 1e7 and 5e8 solar masses, any truncation radius, conserved mass and collapse time; time scaling 0.5 and 2; infall redshifts up to beyond the formation redshift; concentration 4 and 15", prove_ms=10000)
def evolving(ctx):
    lc = lens(ctx)
    seen = profile(ctx)
    C = ctx.get(halos.BASE + "NFW_core_trunc", "TNFWCHaloEvolving")
    # (subhalo?), infall redshift, time scaling, inverse collapse time [1/Gyr]: before, around and far beyond collapse
    subs, zi, lam, rate = ctx.choice("case", [((True, False), 1.5, 0.5, (1e-3, 0.02)), ((False, False), None, 1.0, (0.16, 0.3)), ((True, True), 3.0, 2.0, (2.0, 50.0)),
                                              ((False, True), 9.0, 0.5, (0.05, 0.15)), ((True, False), 12.0, 2.0, (0.01, 0.04))])
    free = ctx.choice("free halo", [0, 1])
    args, ms = [], [1e7, 5e8]
    for i, s in enumerate(subs):
        u = ctx.real("rate", *rate) if i == free else rate[0]
        args.append({"rt_kpc": ctx.real("rt", 0.05, 50) if i == free else 0.5, "mass_conservation": (ctx.real("conserved", 0.1, 1) if i == free else 0.5) * 1e8,
                     "lambda_t": lam if s else 1.0, "sidm_timescale": 1 / u})
    cons = [4.0, 15.0]

    class Fixed(object):
        def nfw_concentration(self, m, z, *a):
            return cons[0] if z < 1.4 else cons[1]

    def build():
        hs = []
        for i, s in enumerate(subs):
            h = C(ms[i], 0.1, 0.2, 30.0 if s else None, 0.5 if s else [0.25, 1.5][i], s, lc, dict(args[i]), halos.Trunc(ctx), Fixed(), 10.5 + i)
            if s:
                h.set_infall_redshift(zi)
            hs.append(h)
        return hs
    a, b = build(), build()
    ctx.get(B, "precompute_sidm_evolving_profiles")(a)
    batch = list(seen)
    ctx.check(len(batch) == len(a), "one normalisation per halo")
    for x, y, s in zip(a, b, batch):
        y.profile_args
        for g, r, n in zip(s, seen[-1], ("scale radius", "core radius", "truncation radius")):
            ctx.close(g, r, n + " of the normalised profile as for a single halo", rtol=5e-3)
        ctx.close(x.halo_effective_age, y.halo_effective_age, "effective age as for a single halo", rtol=1e-9)
        ctx.close(x.t_over_tc, y.t_over_tc, "dimensionless age as for a single halo", rtol=1e-9)
        for g, r, n in zip(x.profile_args, y.profile_args, ("amplitude", "scale radius", "core radius", "truncation radius", "virial radius")):
            ctx.close(g, r, n + " as for a single halo", rtol=5e-3 if n == "amplitude" else 1e-6)  # distances: exact or from the cosmology's tables (P15)
    ctx.observe("rs", a[0].profile_args[1])


QUERY_FIELD = [q for q in QUERY if "infall" not in q[0] and "tidal" not in q[0]]
QUERY_NFW = [("concentration", lambda h: [h.c]), ("NFW parameters", lambda h: h.nfw_params), ("lensing arguments", lambda h: [h.lenstronomy_params[0][0][k] for k in ("alpha_Rs", "Rs", "center_x", "center_y")])]


@harness("a realization of every profile: NFW and truncated NFW field halos and subhalos, subhalos with their own truncation or imported parameters, point masses, cored and other profiles; truncation models shared, separate or missing, stored or passed in", prove_ms=10000)
def realization(ctx):
    from harness import fakes
    lc = lens(ctx)
    if ctx.symbolic:
        profile(ctx)
    keys, where = ctx.choice("truncation models", [("separate", "stored"), ("separate", "passed"), ("shared", "stored"), ("subhalos", "stored"), ("field", "passed"), ("none", "stored")])
    sub = tidal(ctx, lc, "TruncationGalacticus") if keys in ("separate", "subhalos") else halos.Trunc(ctx, "rt of the model")
    field = sub if keys == "shared" else ctx.get(TID, "TruncationRN")(lc, 50.0)
    kw = {"separate": {"truncation_model_subhalos": sub, "truncation_model_field_halos": field}, "shared": {"truncation_model": sub}, "subhalos": {"truncation_model_subhalos": sub},
          "field": {"truncation_model_field_halos": field}, "none": {}}[keys]
    co = halos.Conc(ctx)
    own = halos.Trunc(ctx, "own rt")
    S = ctx.get(halos.BASE + "TNFW", "TNFWSubhalo")
    F = ctx.get(halos.BASE + "TNFW", "TNFWFieldHalo")
    E = ctx.get(halos.BASE + "TNFWemulator", "TNFWSubhaloEmulator")
    m = [ctx.real("w%d" % i, 1, 10) * 1e7 for i in range(2)]

    def build():
        mk = lambda kind, z, m, is_sub, tr=None, tag=1.5: halos.make(ctx, kind, lc, 0.1, 0.2, z, mass=m, sub=is_sub, conc=co, trunc=tr, tag=tag)
        hs = [mk("NFW", 0.75, m[0], False, tag=1.5), mk("TNFW", 0.75, m[1], False, field, 2.5), mk("TNFW", 0.25, 3e8, False, field, 3.5), mk("TNFW", 0.5, m[0], True, sub, 4.5), mk("TNFW", 0.5, 5e8, True, sub, 5.5),
              mk("TNFW", 0.5, 2e8, True, own, 6.5), mk("TNFW", 0.25, 2e8, False, own, 7.5), mk("PARAMS", 0.5, 1e8, True, tag=8.5),
              S.simple_setup(1e8, 0.25, 1.25, 0.3, 0.4, 0.5, lc, concentration_model=co), F.simple_setup(1e8, 0.3, 0.4, 0.25, 5.0, lc, concentration_model=co),
              E(1e8, 0.3, 0.4, 2e7, 12.0, 0.5, lc, 9.5), mk("PT_MASS", 0.75, 1e7, False, tag=11.5), mk("PJAFFE", 0.75, 1e7, False, own, 13.5), mk("TNFWC", 0.5, 1e8, True, own, 14.5)]
        for i in (3, 4, 5, 8):
            hs[i].set_infall_redshift(1.25)
        return hs
    a, b = build(), build()
    R = fakes.realization(ctx, list(a), lc, kw=dict(kw) if where == "stored" else {"truncation_model": "another"})
    rest = list(range(5, len(a)))
    before = [(h.rescale_norm, h.mass, h.x) for h in a]
    if where == "stored":
        ctx.get(B, "precompute_realization")(R)
    else:
        ctx.get(B, "precompute_realization")(R, kw)
    ctx.check(len(R.halos) == len(a) and all(x is y for x, y in zip(R.halos, a)), "the halos of the realization are kept")
    for i in rest:
        for g, r in zip((a[i].rescale_norm, a[i].mass, a[i].x), before[i]):
            ctx.close(g, r, "a halo that is not supported is untouched", rtol=0)
    agree(ctx, a[0], b[0], QUERY_NFW)
    for i in (1, 2):
        agree(ctx, a[i], b[i], QUERY_FIELD)
    for i in (3, 4):
        agree(ctx, a[i], b[i], [q for q in QUERY_FIELD if q[0] != "physical parameters"] + QUERY[:1])
    for i in (5, 6, 7, 8, 9, 10):
        kx, ky = a[i].lenstronomy_params[0][0], b[i].lenstronomy_params[0][0]
        ctx.check(sorted(kx) == sorted(ky), "a halo with its own truncation keeps it")
        for k in kx:
            ctx.close(kx[k], ky[k], "a halo with its own truncation keeps it", rtol=1e-9, atol=2e-10)
    ctx.observe("rt", a[1].profile_args[1])
