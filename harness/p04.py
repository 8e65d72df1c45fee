"""P04 exported lens model lists describe every halo exactly once, in order"""
from symx.api import registry
from harness import world
from harness.fakes import FakeHalo, Ray, ray, realization
from harness.halos import KINDS, make, plain_lens
from harness.p05 import Plane, Nowhere, los_kw, sub_kw, LOS, SUB
HARNESSES, harness = registry()

PATTERNS = [[], [["NFW"]], [["NFW"], ["TNFW", "CNFW"]], [["A", "B", "C"], [], ["D"]], [["TNFW"], ["PT"], ["A", "B"], ["TNFW"]]]


def halos(ctx, pattern, zlens):
    out = []
    num = ctx.choice("numerical profile", [None, 0, "last"]) if pattern and len(pattern) < 3 else "last"
    for i, comp in enumerate(pattern):
        sub = bool(i % 2)
        out.append(FakeHalo(0.1 + 0.2 * i, ctx.real("m%d" % i, 1e6, 1e10), ctx.real("x%d" % i, -20, 20), ctx.real("y%d" % i, -20, 20), zlens if sub else ctx.real("z%d" % i, 0.01, 1.9),
                            sub=sub, bound=ctx.real("b%d" % i, 1e5, 1e10) if sub else None, components=comp,
                            numerical="interp" if num == i or num == "last" and i == len(pattern) - 1 else None))
    return out


def classes(ctx, lc, g, which):
    out = []
    for w in which:
        if w == "los":
            P = Plane(ctx, "M_los")
            out.append(ctx.get(LOS, "LineOfSight")(P.model, los_kw(), Nowhere(), g, lc, [0.2, 0.9], [0.02, 0.03]))
        elif w == "sub":
            P = Plane(ctx, "M_sub")
            out.append(ctx.get(SUB, "Subhalos")(P.model, sub_kw(), Nowhere(), g, lc))
        else:
            out.append(None)
    return out


def per_halo(ctx, hs, names, z, kw):
    """leading part of the lists: the halos' components in order"""
    k = 0
    for h in hs:
        for i, c in enumerate(h.lenstronomy_ID):
            if k >= len(names):
                ctx.check(False, "every profile component of every halo is listed")
                return k
            ctx.check(names[k] == c, "profile names in the order of the halos and their components")
            ctx.close(z[k], h.z, "redshift of each component is its halo's")
            ctx.check(kw[k].get("owner") == h.unique_tag and kw[k].get("component") == i, "keywords in the order of the halos and their components")
            ctx.check(kw[k].get("center_x") is h.x and kw[k].get("center_y") is h.y, "keywords are the halo's own")
            k += 1
    return k


@harness("up to four halos with zero to three components each at any redshift; sheets from no, one, two or repeated populations with arbitrary expected masses, or exact sheets, switched on or off by the realization, by the call or both; centre ray arbitrary", max_paths=900, budget=120)
def export(ctx):
    zl, zs = 0.5, 2.0
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    g = world.Geo(ctx, c, zl, zs, 6.0)
    hs = halos(ctx, ctx.choice("components", PATTERNS), zl)
    which = ctx.choice("populations", [[], ["sub", "none", "los"]] + ([["los"], ["sub"]] if ctx.thorough or not hs else []))
    on, ask, exact = ctx.choice("sheets", [(True, True, False), (True, None, False), (True, True, True), (True, False, False), (False, True, False), (False, False, False)])
    rx, ry = ray(ctx, "cx"), ray(ctx, "cy")
    r = realization(ctx, hs, lc, rx, ry, classes(ctx, lc, g, which), on, g)
    k = {}
    if ask is not None:
        k["add_mass_sheet_correction"] = ask
    if exact:
        k["kwargs_mass_sheet"] = {"subtract_exact_sheets": True}
    names, z, kw, num = r.lensing_quantities(**k)
    names, z, kw = list(names), list(z), list(kw)
    ctx.check(len(names) == len(z) == len(kw), "lists of equal length")
    n = per_halo(ctx, hs, names, z, kw)
    ctx.check(num == ("interp" if any(h.lenstronomy_params[1] for h in hs) else None), "numerical profile passed on when a halo has one")
    tail = list(zip(names, z, kw))[n:]
    ctx.check(all(t[0] == "CONVERGENCE" for t in tail), "the halos are followed by mass sheets only")
    if not (on and (ask is None or ask)):
        ctx.check(not tail, "no sheets when the correction is switched off")
    elif exact:
        zz = []
        for h in hs:
            if not any(ctx.same(h.z, a) for a in zz):
                zz.append(h.z)
        ctx.check(len(tail) == len(zz), "one exact sheet per occupied plane")
        for a in zz:
            ctx.check(sum(1 for t in tail if ctx.same(t[1], a)) == 1, "one exact sheet per occupied plane")
    else:
        want = ([0.2, 0.9] if "los" in which else []) + ([zl] if "sub" in which else [])
        ctx.check(len(tail) == len(want), "one sheet per plane of each population")
        for a in want:
            ctx.check(sum(1 for t in tail if ctx.is_true(t[1] == a)) == 1, "one sheet per plane of each population")
    for _, zz, q in tail:
        d = c.D_C_z(zz)
        ctx.close(q["ra_0"], rx.f(d), "sheets are centred on the rendering centre at their own distance (x)", atol=1e-9)
        ctx.close(q["dec_0"], ry.f(d), "sheets are centred on the rendering centre at their own distance (y)", atol=1e-9)
        ctx.check("kappa" in q, "sheets have a convergence")
        ctx.observe("ra_0", q["ra_0"])


@harness("the same export twice, and after the lists handed out were changed by the caller, gives the same lists", max_paths=300)
def repeated(ctx):
    zl, zs = 0.5, 2.0
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    g = world.Geo(ctx, c, zl, zs, 6.0)
    hs = halos(ctx, PATTERNS[2], zl)
    r = realization(ctx, hs, lc, ray(ctx, "cx"), ray(ctx, "cy"), classes(ctx, lc, g, ["sub", "los"]), True, g)
    a = r.lensing_quantities()
    before = [(n, zz, dict(k)) for n, zz, k in zip(a[0], list(a[1]), a[2])]
    a[0].append("EXTRA")
    a[2].append({})
    b = r.lensing_quantities()
    ctx.check(len(b[0]) == len(before) == len(list(b[1])) == len(b[2]), "same number of profiles the second time")
    for (n, zz, k), n2, z2, k2 in zip(before, b[0], list(b[1]), b[2]):
        ctx.check(n == n2 and set(k) == set(k2), "same profiles the second time")
        ctx.close(zz, z2, "same redshifts the second time")
        for q in k:
            ctx.close(k[q], k2[q], "same keywords the second time", atol=1e-12)


NEAR = 1.1e-4


def centred(ctx, h, x, y, label):
    p, num = h.lenstronomy_params
    ids = h.lenstronomy_ID
    ctx.check(len(ids) == len(p), label + ": as many keyword sets as profile names")
    for q in p:
        ctx.close(q["center_x"], x, label + " (x)", rtol=0, atol=NEAR)
        ctx.close(q["center_y"], y, label + " (y)", rtol=0, atol=NEAR)
        ctx.observe("x", q["center_x"])


@harness("every profile class of the package at any position: one keyword set per profile name, centred on the halo; as subhalo and as field halo", max_paths=300)
def profiles(ctx):
    kind = ctx.choice("profile", sorted(KINDS))
    sub = False if kind == "GC" else True if kind == "PARAMS" else ctx.flag("subhalo")
    c, lc = plain_lens(ctx)
    x, y = ctx.real("x", -30, 30), ctx.real("y", -30, 30)
    h = make(ctx, kind, lc, x, y, 0.5 if sub else 0.7, sub=sub)
    ctx.check(list(h.lenstronomy_ID) == KINDS[kind], "documented lens model names")
    centred(ctx, h, x, y, "centred on the halo")
    r = realization(ctx, [h, make(ctx, "TNFW", lc, y, x, 0.9, sub=False, tag=0.7)], lc, ray(ctx, "cx"), ray(ctx, "cy"), [None])
    names, z, kw, num = r.lensing_quantities(add_mass_sheet_correction=False)
    ctx.check(list(names) == KINDS[kind] + ["TNFW"], "the exported names are the halos' names in order")
    ctx.check(list(z) == [h.z] * len(KINDS[kind]) + [0.9], "the exported redshifts are the halos' redshifts in order")
    for q in kw[:-1]:
        ctx.close(q["center_x"], x, "exported at the halo's position", rtol=0, atol=NEAR)
        ctx.close(q["center_y"], y, "exported at the halo's position", rtol=0, atol=NEAR)
    ctx.close(kw[-1]["center_x"], y, "exported at the halo's position", rtol=0, atol=NEAR)


@harness("every movable profile class, aligned with an arbitrary ray, exported before the alignment or not: the export follows the halo", max_paths=300)
def aligned(ctx):
    kind = ctx.choice("profile", [k for k in sorted(KINDS) if k not in ("PT_MASS", "GC", "GAUSSIAN_KAPPA")])
    sub = True if kind == "PARAMS" else ctx.flag("subhalo")
    c, lc = plain_lens(ctx)
    x, y = ctx.real("x", -30, 30), ctx.real("y", -30, 30)
    h = make(ctx, kind, lc, x, y, 0.5 if sub else 0.7, sub=sub)
    r = realization(ctx, [h], lc, ray(ctx, "cx"), ray(ctx, "cy"), [None])
    if ctx.flag("exported before"):
        r.lensing_quantities(add_mass_sheet_correction=False)
    if hasattr(h, "_nfw_halo"):
        h._nfw_halo.lenstronomy_params
    dx, dy = ctx.real("ray x", -5, 5), ctx.real("ray y", -5, 5)
    s = r.shift_background_to_source(Ray(lambda d: d * 0 + dx), Ray(lambda d: d * 0 + dy))
    centred(ctx, s.halos[0], x + dx, y + dy, "the exported profile moves with the halo")
