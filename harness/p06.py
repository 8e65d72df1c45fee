"""P06 every halo is built with the profile, models and cosmology chosen for its kind"""
from symx.api import registry
from harness import world
from harness.fakes import ray
from harness.halos import BASE, KINDS, Conc, Trunc, lens
from harness.p11 import World, mf, place, population_args, expected
import numpy as np
HARNESSES, harness = registry()

# profile -> module, class of a subhalo, classes a field halo may have
CLS = {"NFW": ("NFW", ["NFWSubhhalo"], ["NFWFieldHalo"]), "TNFW": ("TNFW", ["TNFWSubhalo"], ["TNFWFieldHalo"]), "PT_MASS": ("blackhole", ["BlackHole"], ["BlackHole"]),
       "PJAFFE": ("PsuedoJaffe", ["PJaffeSubhalo"], ["PJaffeSubhalo", "PJaffeFieldhalo"]), "ULDM": ("ULDM", ["ULDMSubhalo"], ["ULDMFieldHalo"]),
       "GAUSSIAN_KAPPA": ("gaussianhalo", ["GaussianHalo"], ["GaussianHalo"]), "GNFW": ("generalized_nfw", ["GeneralNFWSubhalo"], ["GeneralNFWFieldHalo"]),
       "SPL_CORE": ("powerlaw", ["PowerLawSubhalo"], ["PowerLawFieldHalo"]), "TNFWC_SIDM": ("NFW_core_trunc", ["TNFWCHaloEvolving"], ["TNFWCHaloEvolving"])}
ARGS = {"gamma_inner": 1.5, "gamma_outer": 3.0, "log_slope_halo": 2.5, "x_core_halo": 0.05, "amp": 0.01, "sigma": 0.02, "center_x": 0.1, "center_y": 0.2,
        "log10_m_uldm": -21, "uldm_plaw": 1 / 3., "scale_nfw": False, "sidm_timescale": 20.0, "lambda_t": 1.0, "rt_kpc": 1.0, "mass_conservation": 1e8}
KEYS = ["truncation_model", "concentration_model"]


def models(ctx, cc, tc):
    """the model keywords of a realization, and the model expected for (kind of model, subhalo)"""
    C = {k: Conc(ctx, "conc_" + k) for k in ("sub", "field", "common")}
    R = {k: Trunc(ctx, "rt_" + k) for k in ("sub", "field", "common")}
    kw = {"kwargs_density_profile": ARGS}
    if cc:
        kw["concentration_model"] = C["common"]
    else:
        kw.update(concentration_model_subhalos=C["sub"], concentration_model_field_halos=C["field"])
    if tc:
        kw["truncation_model"] = R["common"]
    else:
        kw.update(truncation_model_subhalos=R["sub"], truncation_model_field_halos=R["field"])
    pick = lambda d, common: lambda sub: d["common" if common else "sub" if sub else "field"]
    return kw, C, R, pick(C, cc), pick(R, tc)


def is_built(ctx, h, prof, m, x, y, r3, z, sub, lc, tag=None):
    mod, subs, fields = CLS[prof]
    ctx.check(type(h).__name__ in (subs if sub else fields), "density profile named for it")
    ctx.check(isinstance(h, tuple(ctx.get(BASE + mod, c) for c in set(subs + fields))), "density profile named for it")
    for a, b, what in ((h.mass, m, "mass"), (h.x, x, "x position"), (h.y, y, "y position"), (h.z, z, "redshift")):
        ctx.close(a, b, what + " preserved", rtol=1e-12)
    if r3 is None:
        ctx.check(h.r3d is None, "no 3D radius invented")
    else:
        ctx.close(h.r3d, r3, "3D radius preserved", rtol=1e-12)
    ctx.check(bool(h.is_subhalo) == bool(sub), "subhalo status preserved")
    ctx.check(h.lens_cosmo is lc, "evaluated in the realization's cosmology")


def uses(ctx, h, prof, sub, conc, trunc, C, R):
    """the halo's concentration and truncation come from the model for its kind, and from no other"""
    if prof in ("NFW", "TNFW", "PJAFFE", "GNFW", "ULDM", "TNFWC_SIDM"):
        ctx.close(h.c, conc(sub).f(h.mass, h.z_infall if sub else h.z), "concentration from the model for its kind", rtol=1e-9)
    if prof == "SPL_CORE":
        ctx.close(h.profile_args[0], conc(sub).f(h.mass, h.z_infall if sub else h.z), "concentration from the model for its kind", rtol=1e-9)
    if prof == "TNFW":
        ctx.close(h.profile_args[1], trunc(sub).f(h.mass, h.z), "truncation from the model for its kind", rtol=1e-9)
        ctx.observe("rt", h.profile_args[1])
    for d, want in ((C, conc(sub)), (R, trunc(sub))):
        ctx.check(not any(q.asked for q in d.values() if q is not want), "no other model consulted")


def own_tags(ctx, halos):
    for i, a in enumerate(halos):
        for b in halos[:i]:
            ctx.check(a.unique_tag != b.unique_tag, "an identification tag of its own")


def distinct(ctx, n):
    """random numbers that differ from each other, as random numbers do"""
    u = [ctx.real("tag%d" % i, 0, 1) for i in range(n)]
    for i, a in enumerate(u):
        for b in u[:i]:
            ctx.assume(a > b)
    return u


@harness("every documented profile, subhalo or field halo, at any mass, position and redshift; common or separate concentration and truncation models, each an arbitrary function", max_paths=400)
def one(ctx):
    c, lc, calls = lens(ctx)
    prof = ctx.choice("profile", sorted(CLS))
    sub = ctx.flag("subhalo")
    cc, tc = ctx.choice("common models", [(False, False), (True, False), (False, True), (True, True)])
    kw, C, R, conc, trunc = models(ctx, cc, tc)
    m, x, y = ctx.real("m", 1e5, 1e11), ctx.real("x", -30, 30), ctx.real("y", -30, 30)
    z = 0.5 if sub else ctx.real("z", 0.01, 1.99)
    r3 = ctx.real("r3d", 1, 500) if sub else None
    A = lambda v: np.array([v], dtype=object if ctx.symbolic else float)
    r = ctx.get("pyHalo.single_realization", "Realization")(A(m), A(x), A(y), np.array([r3], dtype=object), [prof], A(z), [sub], lc, kwargs_halo_model=kw, mass_sheet_correction=False, rendering_center_x=ray(ctx, "cx"), rendering_center_y=ray(ctx, "cy"))
    ctx.check(len(r.halos) == 1, "one halo per object")
    h = r.halos[0]
    is_built(ctx, h, prof, m, x, y, r3, z, sub, lc)
    uses(ctx, h, prof, sub, conc, trunc, C, R)


@harness("four objects of mixed kinds and profiles in three orders: each is built from its own entries, with its own tag", max_paths=200)
def several(ctx):
    c, lc, calls = lens(ctx)
    profs, subs = ctx.choice("objects", [(["TNFW", "NFW", "TNFW", "PJAFFE"], [True, False, False, True]), (["PT_MASS", "TNFW", "GNFW", "TNFW"], [False, True, False, True]),
                                         (["SPL_CORE", "SPL_CORE", "ULDM", "GAUSSIAN_KAPPA"], [True, False, True, False])])
    kw, C, R, conc, trunc = models(ctx, False, False)
    v = lambda n, lo, hi: [ctx.real("%s%d" % (n, i), lo, hi) for i in range(4)]
    m, x, y, r3 = v("m", 1e5, 1e11), v("x", -30, 30), v("y", -30, 30), v("r", 1, 500)
    z = [0.5 if s else ctx.real("z%d" % i, 0.01, 1.99) for i, s in enumerate(subs)]
    r3 = [a if s else None for a, s in zip(r3, subs)]
    ctx.rng.feed = distinct(ctx, 4)
    A = lambda v: np.array(v, dtype=object)
    given = {k: kw[k] for k in kw}
    r = ctx.get("pyHalo.single_realization", "Realization")(A(m), A(x), A(y), A(r3), profs, A(z), subs, lc, kwargs_halo_model=kw, mass_sheet_correction=False, rendering_center_x=ray(ctx, "cx"), rendering_center_y=ray(ctx, "cy"))
    ctx.check(len(r.halos) == 4, "one halo per object")
    for i, h in enumerate(r.halos):
        is_built(ctx, h, profs[i], m[i], x[i], y[i], r3[i], z[i], subs[i], lc)
    own_tags(ctx, r.halos)
    ctx.check(kw == given, "the caller's model keywords are left alone")


@harness("names that are no documented profile, for subhalos and field halos")
def unknown(ctx):
    c, lc, calls = lens(ctx)
    kw, C, R, conc, trunc = models(ctx, False, False)
    name = ctx.choice("name", ["TNWF", "nfw", "", "SIS_", None, "TNFWC_", "NFW "])
    sub = ctx.flag("subhalo")
    Rz = ctx.get("pyHalo.single_realization", "Realization")
    ctx.raises(lambda: Rz(np.array([1e8]), np.array([0.1]), np.array([0.1]), np.array([10.0]), [name], np.array([0.5]), [sub], lc, kwargs_halo_model=kw, mass_sheet_correction=False, rendering_center_x=ray(ctx, "cx"), rendering_center_y=ray(ctx, "cy")),
               label="unknown profile refused")


@harness("rendering through the front end with different profiles requested for subhalos and field halos, in both orders of the populations, default and custom cosmology; symbolic positions", witnesses=3, budget=120)
def front_end(ctx):
    P = ctx.load("pyHalo.pyhalo")
    cosmo = ctx.choice("cosmology", [None, {"H0": 71.0, "Om0": 0.25, "Ob0": 0.04, "sigma8": 0.8, "flat": True, "ns": 0.97, "power_law": False}])
    ph = P.pyHalo(0.5, 1.5, *([] if cosmo is None else [dict(cosmo)]))
    if cosmo is not None:
        a = ph.lens_cosmo.cosmo.astropy
        ctx.close(a.H0.value, 71.0, "the requested cosmology")
        ctx.close(a.Om0, 0.25, "the requested cosmology")
        ctx.close(a.Ob0, 0.04, "the requested cosmology")
    names = ctx.choice("populations", [["LINE_OF_SIGHT", "SUBHALOS"], ["SUBHALOS", "LINE_OF_SIGHT"]])
    ps, pf = ctx.choice("profiles", [("TNFW", "NFW"), ("NFW", "TNFW"), ("PJAFFE", "GNFW"), ("TNFW", "TNFW")])
    w = World(ctx, [1, 2, 0, 2, 1, 1, 2])
    mfs, kws, pls, kpl = population_args(ctx, w, names, "PROJECTEDNFW")
    g = world.Geo(ctx, world.Cosmology(ctx), 0.5, 1.5, 6.0)
    kw, C, R, conc, trunc = models(ctx, False, False)
    (r,) = ph.render(names, mfs, kws, pls, kpl, g, ps, pf, kw, lens_plane_spacing=0.5)
    ctx.check(len(r.halos) == w.n, "one halo per drawn object")
    exp = expected(w)
    kinds = {"%s%d" % (n, i): n == "SUBHALOS" for i, n in enumerate(names)}
    for h in r.halos:
        mi = float(h.mass)
        ctx.check(mi in exp, "mass preserved")
        label = exp[mi][0]
        sub = kinds[label]
        ctx.check(bool(h.is_subhalo) == sub, "subhalo status preserved")
        prof = ps if sub else pf
        mod, subs, fields = CLS[prof]
        ctx.check(type(h).__name__ in (subs if sub else fields), "the profile requested for its kind")
        ctx.check(h.lens_cosmo is ph.lens_cosmo, "evaluated in the requested cosmology")
    ctx.check(r.geometry is g, "rendering volume handed on")
