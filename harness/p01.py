"""P01 ray filtering keeps exactly the massive halos and the halos near a ray"""
from symx.api import registry
from harness import world
from harness.fakes import FakeHalo, Ray, ray, realization, snapshot, unchanged, same_arrays
import numpy as np
HARNESSES, harness = registry()


def rule(ctx, c, h, rays, ap, logm, units, weight, wmin, zs):
    """the documented rule as a formula over the halo"""
    d = c.D_C_z(h.z)
    w = 1.0
    if weight:
        w = d * (c.D_C_z(zs) - d) / (c.D_C_z(zs) / 2) ** 2
        w = ctx.max(ctx.min(w, 1.0), wmin)
    heavy = (ctx.abs(h.mass) >= 10 ** logm)
    near = False
    for rx, ry in rays:
        f = d * world.ARCSEC * 1000.0 if units == "KPC" else 1.0
        dx, dy = (h.x - rx.f(d)) * f, (h.y - ry.f(d)) * f
        near = near | (dx ** 2 + dy ** 2 <= (ap * w) ** 2)
    return heavy | near


def either_way(ctx, h, keep, kept, margin):
    """kept exactly when the rule says so"""
    if kept:
        ctx.check(keep, "a halo that meets neither criterion is removed")
    else:
        ctx.check(ctx.implies(keep, False), "no halo that meets a criterion is lost")


def line(ctx, name):
    """ray at a constant angle"""
    a = ctx.real(name, -10, 10)
    return Ray(lambda d: a + 0.0 * d)


def mass(ctx, i, signed):
    m = ctx.real("m%d" % i, 1e5, 1e11)
    return -m if signed and ctx.flag("negative mass %d" % i) else m


def run(ctx, plan, nrays, units, weight, zs=2.0, defaults=False, straight=False):
    zl = 0.5
    c = world.Cosmology(ctx, free=not straight)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    hs = []
    for i, (z, s) in enumerate(plan):
        hs.append(FakeHalo(0.1 * i + 0.05, mass(ctx, i, straight), ctx.real("x%d" % i, -20, 20), ctx.real("y%d" % i, -20, 20), z, sub=s, fixed=bool(i % 2)))
    mk = line if straight else ray
    rays = [(mk(ctx, "rx%d" % j), mk(ctx, "ry%d" % j)) for j in range(nrays)]
    cx, cy = ray(ctx, "cx"), ray(ctx, "cy")
    g = world.Geo(ctx, c, zl, zs, 6.0)
    cls = [None]
    r = realization(ctx, hs, lc, cx, cy, cls, geometry=g)
    ap = ctx.real("aperture", 0.001, 500 if units == "KPC" else 10)
    logm = ctx.real("log10 mass", 4, 12)
    snap = snapshot(hs)
    kw = {}
    wmin = 0.1
    if not defaults:
        wmin = ctx.real("w_min", 0.01, 0.9)
        kw = dict(aperture_units=units, geometric_weighting=weight, w_min=wmin)
    f = r.filter(ap, logm, [a for a, b in rays], [b for a, b in rays], **kw)
    out = list(f.halos)
    unchanged(ctx, r.halos, snap, "input realization unchanged")
    same_arrays(ctx, r, "input arrays")
    same_arrays(ctx, f)
    ids = [id(h) for h in out]
    ctx.check(len(set(ids)) == len(ids), "no halo duplicated")
    ctx.check(all(any(h is k for k in hs) for h in out), "kept halos are the identical objects")
    for h in hs:
        kept = any(h is k for k in out)
        either_way(ctx, h, rule(ctx, c, h, rays, ap, logm, units, weight, wmin, zs), kept, 1)
        ctx.observe("kept", 1.0 if kept else 0.0)
    ctx.check(f.rendering_center[0] is cx and f.rendering_center[1] is cy, "rendering centre kept")
    ctx.check(f.rendering_classes is cls or f.rendering_classes == cls, "rendering classes kept")
    ctx.check(f.geometry is g and f.lens_cosmo is lc and f.apply_mass_sheet_correction, "settings kept")


@harness("one halo at any redshift before the source, anywhere, any mass; one or two arbitrary ray paths; both units; weighting on and off with any minimum weight; any aperture and threshold", max_paths=600)
def one_halo(ctx):
    units = ctx.choice("units", ["ANGLES", "KPC"])
    weight = ctx.flag("weighting")
    n = ctx.choice("rays", [1, 2])
    z = ctx.real("z", 0.01, 1.99)
    run(ctx, [(z, ctx.choice("sub", [False, True]))], n, units, weight)


@harness("one halo on any of three planes, positive or negative mass; two rays at any constant angles; angles, no weighting, concrete cosmology", max_paths=600)
def straight_rays(ctx):
    z = ctx.choice("plane", [0.2, 0.5, 1.1])
    run(ctx, [(z, False)], 2, "ANGLES", False, straight=True)


@harness("two halos on any planes (also the same one), one ray, both units, weighting on", max_paths=900, budget=120)
def two_halos(ctx):
    units = ctx.choice("units", ["ANGLES", "KPC"])
    za = ctx.real("za", 0.01, 1.99)
    zb = ctx.choice("second plane", [za, None])
    if zb is None:
        zb = ctx.real("zb", 0.01, 1.99)
    run(ctx, [(za, False), (zb, True)], 1, units, ctx.thorough)


@harness("three halos with interleaved planes (first and last share one) in three orders, angles, no weighting, one ray", max_paths=900, budget=120)
def interleaved(ctx):
    p = ctx.choice("planes", [(0.7, 0.3, 0.7), (0.3, 0.7, 0.3), (0.5, 0.5, 0.5)])
    run(ctx, [(p[0], False), (p[1], True), (p[2], False)], 1, "ANGLES", False)


@harness("default unit, weighting and minimum weight are angles, on and 0.1")
def defaults(ctx):
    run(ctx, [(ctx.real("z", 0.01, 1.99), False)], 1, "ANGLES", True, defaults=True)


@harness("no halos; unknown unit refused when a distance has to be computed")
def edge(ctx):
    if ctx.flag("empty"):
        run(ctx, [], 1, "ANGLES", True)
        return
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, 0.5, 2.0, cosmo=c)
    h = FakeHalo(0.1, 1e6, ctx.real("x", -5, 5), 0.0, 0.7)
    r = realization(ctx, [h], lc, ray(ctx, "cx"), ray(ctx, "cy"))
    ctx.raises(lambda: r.filter(1.0, ctx.real("log10 mass", 7, 9), [ray(ctx, "rx")], [ray(ctx, "ry")], aperture_units=ctx.choice("unit", ["ANGLE", "kpc", "arcsec"])), label="unknown unit refused")
