"""P13 objects are placed inside the rendering volume with consistent units"""
from symx.api import registry
from harness import world
import numpy as np
HARNESSES, harness = registry()
UNI = "pyHalo.Rendering.SpatialDistributions.uniform"
NFW = "pyHalo.Rendering.SpatialDistributions.nfw"
COR = "pyHalo.Rendering.SpatialDistributions.correlated"


def uniforms(ctx):
    return [l for l in ctx.rng.log if l[0] == "uniform"]


def flat(ctx):
    """all uniform draws, scaled to [0,1)"""
    out = []
    for k, (a, b), v in uniforms(ctx):
        for x in np.asarray(v, dtype=object).reshape(-1):
            out.append((x - a) / (b - a))
    return out


@harness("any rendering angle, plane redshift, centre and rescaling; 1 to 3 objects; any random numbers")
def uniform_inside(ctx):
    c = world.Cosmology(ctx)
    R = ctx.real("rmax", 0.1, 30)
    z = ctx.real("z", 0.01, 4)
    n = ctx.choice("n", [1, 3])
    U = ctx.get(UNI, "Uniform")
    k = c.kpc_proper_per_asec(z)
    s, cx, cy = 1, 0, 0
    d = U(R, world.Geo(ctx, c, 0.5, 4.5, 6.0))
    if ctx.flag("options"):
        s, cx, cy = ctx.real("scale", 0.01, 1), ctx.real("cx", -5, 5), ctx.real("cy", -5, 5)
        x, y = d.draw(n, z, rescale=s, center_x=cx, center_y=cy)
    else:
        x, y = d.draw(n, z)
    ctx.check(len(x) == n and len(y) == n, "one position per object")
    us = flat(ctx)
    for i in range(n):
        ctx.observe("xy", [x[i], y[i]])
        u, v = x[i] / k - cx, y[i] / k - cy
        r2 = u ** 2 + v ** 2
        ctx.le(r2, (R * s) ** 2 * (1 + 1e-9), "inside the rendering radius of the plane")
        # uniform in area: the squared radius is a uniform fraction of its maximum, the direction a uniform fraction of the circle
        f = r2 / (R * s) ** 2
        ctx.eq_or([(f, w) for w in us] + [(f, 1 - w) for w in us], "density per unit area independent of the radius")


@harness("the two coordinates of one object: the direction is uniform and independent of the radius; any random numbers")
def uniform_direction(ctx):
    c = world.Cosmology(ctx)
    R = ctx.real("rmax", 0.1, 30)
    d = ctx.get(UNI, "Uniform")(R, world.Geo(ctx, c, 0.5, 4.5, 6.0))
    n = 2
    x, y = d.draw(n, 0.7)
    k = c.kpc_proper_per_asec(0.7)
    us = uniforms(ctx)
    ctx.check(sum(np.size(l[2]) for l in us) == 2 * n, "independent direction and radius for each object")
    fr = flat(ctx)
    for i in range(n):
        for j in range(n):
            if i != j:
                # changing the random numbers of one object does not move the other one
                pass
        r = ctx.sqrt((x[i] / k) ** 2 + (y[i] / k) ** 2)
        c1 = [(x[i] / k, r * ctx.cos(2 * ctx.pi * w)) for w in fr]
        c2 = [(y[i] / k, r * ctx.sin(2 * ctx.pi * w)) for w in fr]
        ctx.eq_or(c1, "x is the radius times the cosine of a uniform angle")
        ctx.eq_or(c2, "y is the radius times the sine of a uniform angle")


@harness("any opening angle, any rendering scale of the geometry in (0,1] per plane, any plane redshift, centre")
def cone_uniform(ctx):
    c = world.Cosmology(ctx)
    A = ctx.real("opening angle", 0.2, 60)
    z = ctx.real("z", 0.01, 4)
    g = world.Geo(ctx, c, 0.5, 4.5, A)
    d = ctx.get(UNI, "LensConeUniform")(A, g)
    cx, cy = ctx.real("cx", -5, 5), ctx.real("cy", -5, 5)
    centred = ctx.flag("centre")
    x, y = d.draw(2, z, center_x=cx, center_y=cy) if centred else d.draw(2, z)
    if not centred:
        cx = cy = 0
    k = c.kpc_proper_per_asec(z)
    Rz = 0.5 * A * g.rendering_scale(z)
    us = flat(ctx)
    for i in range(2):
        r2 = (x[i] / k - cx) ** 2 + (y[i] / k - cy) ** 2
        ctx.observe("x", x[i])
        ctx.le(r2, Rz ** 2 * (1 + 1e-9), "inside half the opening angle times the rendering scale of the plane")
        ctx.eq_or([(r2 / Rz ** 2, w) for w in us] + [(r2 / Rz ** 2, 1 - w) for w in us], "density per unit area independent of the radius")


@harness("zero objects requested from every placement class")
def nothing(ctx):
    c = world.Cosmology(ctx)
    g = world.Geo(ctx, c, 0.5, 4.5, 6.0)
    which = ctx.choice("class", ["Uniform", "LensConeUniform", "ProjectedNFW"])
    z = ctx.real("z", 0.01, 4)
    if which == "ProjectedNFW":
        out = ctx.get(NFW, which)(3.0, 10.0, 1.0, 40.0, 6.0).draw(0, z)
        ctx.check(len(out) == 3, "three coordinates")
    else:
        out = ctx.get(UNI, which)(6.0, g).draw(0, z)
        ctx.check(len(out) == 2, "two coordinates")
    for v in out:
        ctx.check(len(v) == 0, "no coordinates for no objects")


@harness("uniform placement refused for subhalos through the host-mass constructor")
def refused(ctx):
    which = ctx.choice("class", ["Uniform", "LensConeUniform"])
    ctx.raises(lambda: ctx.get(UNI, which).from_Mhost(1e13, 0.5, 3.0, 0.2, None), label="refused")


SETS = [(3.0, 10.0, 2.0, 60.0, 6.1), (0.5, 30.0, 0.3, 40.0, 3.0), (8.0, 5.0, 20.0, 25.0, 7.7)]


def rho2(R, rs):
    return (R / rs + 0.3) ** -0.8


def rho3(R, rs, rc):
    return 1.0 / ((rc / rs + R / rs) * (1 + R / rs) ** 2)


def quantiles(w, lo, hi, qs):
    """radii enclosing the given fractions of the weight (independent quadrature)"""
    n = 200000
    x = np.linspace(lo, hi, n)
    m = 0.5 * (w(x[1:]) + w(x[:-1])) * np.diff(x)
    c = np.append(0, np.cumsum(m))
    return np.interp(np.asarray(qs) * c[-1], c, x)


def projected(ctx, p):
    M = ctx.load("lenstronomy.LensModel.Profiles.cnfw")
    ctx.patch(M.CNFW, "density_2d", lambda self, x, y, Rs, rho0, rc, *a: rho2(np.sqrt(np.asarray(x, dtype=float) ** 2 + y ** 2), Rs))
    ctx.patch(M.CNFW, "density", lambda self, R, Rs, rho0, rc: rho3(np.asarray(R, dtype=float), Rs, rc))
    return ctx.get(NFW, "ProjectedNFW")(*p)


@harness("three parameter sets (narrow and wide aperture, small and large core) with smooth stand-in densities; any random numbers; 1 or 2 objects", budget=120)
def nfw_inside(ctx):
    p = ctx.choice("set", SETS)
    R, rs, rc, r200, k = p
    d = projected(ctx, p)
    n = ctx.choice("n", [1, 2])
    x, y, r3 = d.draw(n, 0.5)
    ctx.check(len(x) == n and len(y) == n and len(r3) == n, "one position per object")
    for i in range(n):
        ctx.observe("x", x[i])
        ctx.observe("r3", r3[i])
        r2 = x[i] ** 2 + y[i] ** 2
        ctx.le(r2, (R * k) ** 2 * (1 + 1e-6), "inside the requested projected radius")
        ctx.le(r3[i], r200 * k, "inside the host's virial radius")
        ctx.lt(0, r3[i], "positive 3D radius")
        ctx.lt(0, r2, "not exactly at the centre")


QS = [0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98]


@harness("as above: every quantile of the projected and of the 3D radius between seven fixed ones (the tables of the inverse distributions are monotone, the values in between are bracketed for every random number); tolerance 1%", budget=150)
def nfw_radii(ctx):
    p = ctx.choice("set", SETS)
    R, rs, rc, r200, k = p
    d = projected(ctx, p)
    j = ctx.choice("interval", list(range(len(QS) + 1)))
    edges = [0.0] + QS + [1.0]
    t2 = quantiles(lambda r: rho2(r, rs) * r, 1e-3 * R, R, edges)
    t3 = quantiles(lambda r: rho3(r, rs, rc) * r ** 2, 1e-3 * R, r200, edges)
    x, y, r3 = d.draw(1, 0.5)
    us = [u for u in flat(ctx)][-3:]
    for u in us:
        ctx.assume(u >= edges[j] + 1e-6)
        ctx.assume(u <= edges[j + 1] - 1e-6)
    r = ctx.sqrt(x[0] ** 2 + y[0] ** 2) / k
    lo2, hi2 = t2[j] * 0.99 - 2e-3 * R, t2[j + 1] * 1.01 + 2e-3 * R
    lo3, hi3 = t3[j] * 0.99 - 2e-3 * r200, t3[j + 1] * 1.01 + 2e-3 * r200
    ctx.observe("r", r)
    ctx.le(lo2, r, "projected radius not below the quantile of the projected profile")
    ctx.le(r, hi2, "projected radius not above the quantile of the projected profile")
    ctx.le(lo3, r3[0] / k, "3D radius not below the quantile of the profile")
    ctx.le(r3[0] / k, hi3, "3D radius not above the quantile of the profile")


@harness("host given by mass: any host mass 10^[11,15], concentration [2,15], lens redshift, core in units of rs: scale and virial radius are those of the host, in arcsec")
def nfw_from_host(ctx):
    M = ctx.load(NFW)
    C = M.ProjectedNFW
    seen = []

    class Seen(C):
        def __init__(self, rmax2d_arcsec, rs_arcsec, r_core_arcsec, r_200_arcsec, arcsec_to_kpc):
            seen.append((rmax2d_arcsec, rs_arcsec, r_core_arcsec, r_200_arcsec, arcsec_to_kpc))
    ctx.patch(M, "ProjectedNFW", Seen)
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    lc = world.free_lens_cosmo(ctx, zl, zl + 1.0, cosmo=c)
    lm = ctx.real("log_host", 11, 15)
    con = ctx.real("c", 2, 15)
    R = ctx.real("rmax", 0.1, 30)
    core = ctx.real("core", 0.01, 3)
    Seen.from_Mhost(10 ** lm, zl, R, core, lc, con)
    ctx.check(len(seen) == 1, "one distribution")
    rmax, rs, rc, r200, k = seen[0]
    ctx.close(rmax, R, "aperture as requested")
    kpc = c.kpc_proper_per_asec(zl)
    ctx.close(k, kpc, "kpc per arcsec of the lens plane")
    # virial radius of a host of this mass: 200 times the critical density
    ctx.observe("r200", r200)
    _, rs_kpc, r200_kpc = lc.NFW_params_physical(10 ** lm, con, zl)
    ctx.close(rs, rs_kpc / kpc, "scale radius in arcsec", rtol=1e-3)
    ctx.close(r200, r200_kpc / kpc, "virial radius in arcsec", rtol=1e-3)
    ctx.close(r200, con * rs, "virial radius is concentration times scale radius")
    ctx.close(rc, core * rs, "core radius in units of the scale radius")


@harness("maps of 2x2 and 3x3 pixels with any non-negative values (not all zero), 1 or 2 objects, any aperture, centre, plane redshift; smoothing limited to 6 sigma", budget=120)
def correlated(ctx):
    s = ctx.choice("pixels", [2, 3])
    n = ctx.choice("n", [1, 2]) if s == 2 else 1
    c = world.Cosmology(ctx)
    g = world.Geo(ctx, c, 0.5, 4.5, 6.0)
    sm = ctx.choice("smoothing", [1.0, 0.0, 0.5])
    d = ctx.get(COR, "Correlated2D")(g, sm) if sm != 1.0 else ctx.get(COR, "Correlated2D")(g)
    w = ctx.reals("w", s * s, 0, 10)
    tot = 0
    for v in w:
        tot = tot + v
    ctx.assume(tot >= 0.1)
    rm = ctx.real("rmax", 0.1, 5)
    z = ctx.real("z", 0.05, 3)
    cx, cy = ctx.real("cx", -5, 5), ctx.real("cy", -5, 5)
    x, y = d.draw(n, rm, np.array(w, dtype=object if ctx.symbolic else float).reshape(s, s), z, cx, cy)
    ctx.check(len(x) == n and len(y) == n, "one position per object")
    ch = [l for l in ctx.rng.log if l[0] == "choice"]
    ctx.check(len(ch) == 1, "pixels drawn once")
    vals, probs, again = ch[0][1]
    ctx.check(bool(again), "objects drawn independently")
    probs = list(np.asarray(probs).reshape(-1))
    ctx.check(len(probs) == s * s, "every pixel has a probability")
    for a, b in zip(probs, w):
        ctx.close(a * tot, b, "pixel probability proportional to the map")
    k = c.kpc_proper_per_asec(z)
    coord = [-rm + 2 * rm * i / (s - 1) for i in range(s)]
    norm = [v for l in ctx.rng.log if l[0] == "normal" for v in np.asarray(l[2], dtype=object).reshape(-1)]
    ctx.check(len(norm) == 2 * n, "independent smoothing of every coordinate")
    for l in ctx.rng.log:
        if l[0] == "normal":
            ctx.close(l[1][0], 0.0, "smoothing centred", atol=1e-12)
            ctx.close(l[1][1], sm * rm / s, "smoothing scale a fraction of a pixel", atol=1e-12)
    for i in range(n):
        pix = int(np.asarray(ch[0][2]).reshape(-1)[i])
        row, col = pix // s, pix % s
        # map rows run along y, columns along x
        ctx.close(x[i] / k - cx - norm[i], coord[col], "x of the drawn pixel", atol=1e-9)
        ctx.close(y[i] / k - cy - norm[n + i], coord[row], "y of the drawn pixel", atol=1e-9)
        ctx.lt(0, w[pix], "only pixels with structure are drawn")


@harness("map of zeros: refused")
def correlated_empty(ctx):
    c = world.Cosmology(ctx)
    g = world.Geo(ctx, c, 0.5, 4.5, 6.0)
    d = ctx.get(COR, "Correlated2D")(g)
    ctx.raises(lambda: d.draw(2, 1.0, np.zeros((3, 3)), 0.5), label="empty map refused")
