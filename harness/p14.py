"""P14 the rendering volume has the documented shape"""
from symx.api import registry
from harness import world
HARNESSES, harness = registry()
G = "pyHalo.Cosmology.geometry"


def setup(ctx, kind=None, pad=True):
    kind = kind or ctx.choice("type", ["DOUBLE_CONE", "CYLINDER", "CONE"])
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    zs = zl + ctx.real("dzs", 0.05, 3)
    ang = ctx.real("angle", 0.1, 20)
    p = ctx.real("pad", 0, 1) if pad else 0.95
    g = ctx.get(G, "Geometry")(c, zl, zs, ang, kind, p)
    return c, zl, zs, ang, p, g, kind


@harness("any monotone comoving distance, lens redshift [0.1,2], source behind it, pad in [0,1], any redshift in front of the source")
def shape(ctx):
    c, zl, zs, ang, p, g, kind = setup(ctx)
    z = ctx.real("z", 0.01, 5)
    ctx.assume(z <= zs)
    s = g.rendering_scale(z)
    ctx.observe("scale", s)
    Dc = c.Dc
    if kind == "CONE":
        ctx.close(s, 1, "single cone keeps its angle")
    elif kind == "CYLINDER":
        ctx.close(s * Dc(z), Dc(zl), "cylinder keeps the comoving radius it has at the lens")
        ctx.close(g.angle_to_comovingradius(0.5 * ang, z), 0.5 * ang * world.ARCSEC * Dc(zl), "cylinder comoving radius")
    else:
        if ctx.is_true(z <= zl):
            ctx.close(s, 1, "constant angle up to the lens")
        elif ctx.is_true(z > zl):
            # flat universe: comoving radius shrinks linearly in comoving distance behind the lens
            ref = 1 - p * (Dc(z) - Dc(zl)) / Dc(z) * Dc(zs) / (Dc(zs) - Dc(zl))
            ctx.close(s, ref, "closes towards the source as documented", atol=1e-9)
            ctx.le(s, 1, "not wider than at the lens")
            ctx.le(1 - p, s, "not narrower than the documented fraction at the source")
        else:
            ctx.check(False, "redshift on neither side of the lens")


@harness("at the lens and at the source: continuity and closing fraction, any pad in [0,1]")
def ends(ctx):
    c, zl, zs, ang, p, g, kind = setup(ctx, "DOUBLE_CONE")
    ctx.close(g.rendering_scale(zl), 1, "scale one at the lens")
    ctx.close(g.rendering_scale(zs), 1 - p, "documented fraction left at the source", atol=1e-9)
    # continuity from behind: the scale just behind the lens is within pad * relative distance
    d = ctx.real("eps", 1e-6, 1e-3)
    z = zl + d
    ctx.assume(z <= zs)
    s = g.rendering_scale(z)
    gap = (c.Dc(z) - c.Dc(zl)) / c.Dc(z) * c.Dc(zs) / (c.Dc(zs) - c.Dc(zl))
    ctx.le(1 - s, gap, "no jump behind the lens")


@harness("two redshifts behind the lens: the area shrinks monotonically; default pad")
def monotone(ctx):
    c, zl, zs, ang, p, g, kind = setup(ctx, "DOUBLE_CONE")
    z1 = zl + ctx.real("d1", 1e-3, 3)
    z2 = z1 + ctx.real("d2", 1e-3, 3)
    ctx.assume(z2 <= zs)
    ctx.le(g.rendering_scale(z2), g.rendering_scale(z1), "rendering scale decreases towards the source")


@harness("default pad: a non-zero area is left at the source; unknown geometry refused")
def defaults(ctx):
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    zs = zl + ctx.real("dzs", 0.05, 3)
    kind = ctx.choice("type", ["DOUBLE_CONE", "CYLINDER", "CONE", "DOUBLE_CONE_CYLINDER", "double_cone", "", None])
    GC = ctx.get(G, "Geometry")
    if kind not in ("DOUBLE_CONE", "CYLINDER", "CONE"):
        ctx.raises(lambda: GC(c, zl, zs, 6.0, kind), label="unknown geometry refused")
        return
    g = GC(c, zl, zs, 6.0, kind)
    if kind == "DOUBLE_CONE":
        ctx.close(g.rendering_scale(zs), 0.05, "five per cent of the scale left at the source")
    ctx.lt(0, g.angle_to_physical_area(3.0, zs), "positive area at the source")


@harness("radius and area methods of all geometries at any redshift in front of the source, any angle")
def areas(ctx):
    c, zl, zs, ang, p, g, kind = setup(ctx)
    z = ctx.real("z", 0.01, 5)
    ctx.assume(z <= zs)
    r = ctx.real("radius", 0.01, 20)
    s = g.rendering_scale(z)
    DA = c.Dc(z) / (1 + z)
    rp = g.angle_to_physicalradius(r, z)
    rc = g.angle_to_comovingradius(r, z)
    ctx.close(rp, r * world.ARCSEC * s * DA, "physical radius is angle times scale times angular diameter distance", atol=1e-15)
    ctx.close(rc, rp * (1 + z), "comoving radius is the physical one over the scale factor", atol=1e-15)
    ctx.close(g.angle_to_comoving_area(r, z), ctx.pi * rc ** 2, "comoving area of the disk", atol=1e-18)
    ctx.close(g.angle_to_physical_area(r, z), ctx.pi * rp ** 2, "physical area of the disk", atol=1e-18)
    k = ctx.real("k", 0.1, 10)
    ctx.close(g.angle_to_physical_area(k * r, z), k * k * g.angle_to_physical_area(r, z), "area quadratic in the angle", atol=1e-18)
    ctx.close(g.angle_to_physicalradius(k * r, z), k * rp, "radius linear in the angle", atol=1e-15)
    ctx.close(g.kpc_per_arcsec(z), c.kpc_proper_per_asec(z), "kpc per arcsec at the plane")
    ctx.close(g.kpc_per_arcsec_zlens, c.kpc_proper_per_asec(zl), "kpc per arcsec at the lens")
    if ctx.is_true(s > 0):
        ctx.lt(0, rp, "positive radius")


@harness("volume element: thin slices (below 1e-4) and thick slices (symbolic integral), default and given radius")
def volume(ctx):
    c, zl, zs, ang, p, g, kind = setup(ctx, pad=False)
    z = ctx.real("z", 0.01, 5)
    ctx.assume(z <= zs)
    thin = ctx.flag("thin")
    dz = ctx.real("dz", 1e-6, 1e-4) if thin else ctx.real("dz", 0.0002, 0.1)
    r = ctx.real("radius", 0.01, 20) if ctx.flag("given radius") else None
    if kind == "DOUBLE_CONE" and not thin:
        # the integrand bends at the lens: a slice on one side of it
        behind = ctx.flag("behind")
        ctx.assume(z >= zl + 1e-6 if behind else z + dz <= zl)
        ctx.assume(z + dz <= zs)
    v = g.volume_element_comoving(z, dz) if r is None else g.volume_element_comoving(z, dz, r)
    rr = 0.5 * ang if r is None else r

    def scale(t):
        if kind == "CONE" or kind == "DOUBLE_CONE" and not thin and not behind:
            return 1.0
        if kind == "CYLINDER":
            return c.Dc(zl) / c.Dc(t)
        return 1 - p * (c.Dc(t) - c.Dc(zl)) / c.Dc(t) * c.Dc(zs) / (c.Dc(zs) - c.Dc(zl))

    def f(t, s=scale):
        return ctx.pi * (rr * world.ARCSEC * s(t) * c.Dc(t)) ** 2 * 4441.37 / c.E(t)
    if thin:
        ctx.close(v, f(z, g.rendering_scale) * dz, "thin slice: area times comoving thickness", rtol=2e-3, atol=1e-12)
    else:
        ctx.close(v, ctx.quad(f, z, z + dz), "slice volume is the integral of the comoving area over comoving distance", rtol=1e-4)
