"""P34 convergence maps and their statistics"""
from symx.api import registry
from harness import world, halos
import numpy as np
import math
HARNESSES, harness = registry()
U = "pyHalo.utilities"
E = "pyHalo.realization_extensions"


class Model(object):
    """lens model: convergence at a point is the sum over its deflectors of an arbitrary number per deflector and point"""
    made = None
    ctx = None

    def __init__(self, lens_model_list, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None, multi_plane=False, **kw):
        self.names, self.zs, self.z_source, self.cosmo, self.multi = list(lens_model_list), lens_redshift_list, z_source, cosmo, multi_plane
        type(self).made.append(self)

    def kappa(self, x, y, kwargs):
        self.asked = (list(x), list(y), list(kwargs))
        f = type(self).f
        return np.array([sum(f(i, float(kw["id"]), round(float(a), 9), round(float(b), 9)) for i, kw in zip([len(n) for n in self.names], kwargs)) for a, b in zip(x, y)], dtype=object)


@harness("up to three halo deflectors on any planes, a macromodel of two deflectors or the default one; grid of 2 or 3 pixels a side, window of any of two sizes; convergence of every deflector at every pixel arbitrary", prove_ms=10000)
def residual_map(ctx):
    c = world.Cosmology(ctx, free=False)
    lc = world.free_lens_cosmo(ctx, 0.5, 2.0, cosmo=c)
    npix, size, macro, nh, arr = ctx.choice("case", [(2, 2.5, True, 2, False), (3, 1.0, True, 3, True), (3, 4.0, True, 0, False), (2, 1.0, True, 1, True), (3, 2.5, False, 2, True)])
    M = type("Model", (Model,), {"made": [], "f": staticmethod(ctx.fn("kappa", lambda i, k, x, y: 0.1 * i + 0.01 * k + 0.2 * x - 0.1 * y, lo=-5, hi=5))})
    ctx.patch(ctx.load(U), "LensModel", M)
    names = ["TNFW", "TNFW", "PJAFFE"][:nh]
    zs = [0.5, 0.3, 1.1][:nh]
    kws = [{"id": 10 + i} for i in range(nh)]

    class Real(object):
        lens_cosmo = lc

        def lensing_quantities(self, *a, **k):
            return list(names), (np.array(zs) if arr else list(zs)), [dict(k) for k in kws], None
    f = ctx.get(U, "multiplane_convergence")
    if macro:
        given = [["EPL", "SHEAR"], [{"id": 1}, {"id": 2}], [0.5, 0.5]]
        kept = [list(given[0]), [dict(k) for k in given[1]], list(given[2])]
        out = f(Real(), cone_opening_angle_arcsec=size, npix=npix, lens_model_list_macro=given[0], kwargs_lens_macro=given[1], redshift_list_macro=given[2])
        ctx.check(given == kept, "the given macromodel stays unchanged")
    else:
        class Default(M):
            def kappa(self, x, y, kwargs):
                return super(Default, self).kappa(x, y, [dict(k, id=k.get("id", 1)) for k in kwargs])
        Default.made = M.made
        ctx.patch(ctx.load(U), "LensModel", Default)
        out = f(Real(), cone_opening_angle_arcsec=size, npix=npix)
    dk, lens, kw, lens_macro, kw_macro = out
    nm = len(kw_macro)
    ctx.check(np.shape(dk) == (npix, npix), "a square map")
    ctx.check([n for n in lens.names[nm:]] == names and lens.names[:nm] == lens_macro.names and len(lens_macro.names) == nm, "all deflectors, the macromodel first")
    ctx.check([k.get("id") for k in kw[nm:]] == [k["id"] for k in kws] and list(kw[:nm]) == list(kw_macro), "arguments in the order of the deflectors")
    ctx.check([float(z) for z in lens.zs[nm:]] == zs and all(abs(float(z) - 0.5) < 1e-12 for z in lens.zs[:nm]), "every deflector on its own plane")
    ctx.check(bool(lens.multi) and lens.z_source == lc.z_source and lens.cosmo is lc.cosmo.astropy, "multi-plane model to the source in the realization's cosmology")
    grid = np.linspace(-size / 2, size / 2, npix)
    for j in range(npix):
        for i in range(npix):
            want = sum(M.f(len(n), float(k["id"]), round(float(grid[i]), 9), round(float(grid[j]), 9)) for n, k in zip(names, kws)) if nh else 0
            ctx.close(dk[j][i], want, "convergence of the halos at the pixel", atol=1e-9)


@harness("a map of 1 or 2 pixels anywhere, any centre, any inner and outer radius or none", prove_ms=10000, max_paths=900)
def mask(ctx):
    n, outer = ctx.choice("pixels, outer radius", [(1, True), (2, True), (2, False), (1, False)])
    x = np.array([ctx.real("x%d" % i, -3, 3) for i in range(n)])
    y = np.array([ctx.real("y%d" % i, -3, 3) for i in range(n)])
    cx, cy = ctx.real("cx", -1, 1), ctx.real("cy", -1, 1)
    lo, hi = ctx.real("r_min", 0.1, 2), ctx.real("r_max", 0.1, 4)
    f = ctx.get(U, "mask_annular")
    m = f(cx, cy, x, y, lo, hi) if outer else f(cx, cy, x, y, lo)
    ctx.check(np.shape(m) == (n,), "shape of the grid")
    for i in range(n):
        d = (x[i] - cx) ** 2 + (y[i] - cy) ** 2
        ctx.assume(ctx.abs(d - lo ** 2) > 1e-9)
        ctx.assume(ctx.abs(d - hi ** 2) > 1e-9)
        inside = bool(d > lo ** 2) and (not outer or bool(d < hi ** 2))
        ctx.check(float(m[i]) == (1.0 if inside else 0.0), "one between the radii, zero elsewhere")


MU = np.linspace(-1, 1, 101)


@harness("any combination of the first four multipoles at three separations, at 101 equally spaced cosines; error of the grid in angle allowed", prove_ms=10000)
def multipoles(ctx):
    th = np.arccos(MU)
    a = [[ctx.real("a%d_%d" % (l, i), -1, 1) for l in range(4)] for i in range(3)]
    corr = np.empty((3, len(MU)), dtype=object)
    for i in range(3):
        for j, t in enumerate(th):
            corr[i, j] = sum(a[i][l] * math.cos(l * t) for l in range(4))
    r = np.array([0.1, 0.2, 0.4])
    for l in range(4):
        rr, xi = ctx.get(E, "xi_l")(l, corr, r, MU)
        ctx.check(list(rr) == list(r) and len(xi) == 3, "one value per separation")
        for i in range(3):
            ctx.close(xi[i], a[i][l], "multipole of the correlation function", rtol=0, atol=0.02)


def field(ctx, n, size):
    g = np.linspace(-size / 2, size / 2, n)
    k0, kx, ky = ctx.real("k0", -1, 1), ctx.real("kx", -1, 1), ctx.real("ky", -1, 1)
    m = np.empty((n, n), dtype=object)
    for j in range(n):
        for i in range(n):
            m[j, i] = k0 + kx * float(g[i]) + ky * float(g[j])
    return m, k0, kx, ky


@harness("maps with any mean and gradient, without a mask: three separations, four angles", prove_ms=10000)
def correlation(ctx):
    n, size = 16, 3.0
    m, k0, kx, ky = field(ctx, n, size)
    r, mu = np.array([0.0, 0.1, 0.4]), np.array([-1.0, -0.3, 0.5, 1.0])
    C = ctx.get(E, "corr_kappa_with_mask")(m, size, r, mu, apply_mask=False)
    ctx.check(np.shape(C) == (3, 4), "one value per separation and angle")
    R = size / 2 - 0.4
    # mean of (kappa(x1) - mean)(kappa(x2) - mean) over the square of half width R, with x1 and x2 at r / 2 from the point in
    # opposite directions turned by the angle from the radial direction: both gradients vary as R^2 / 3
    npx = int(n / (size / 2) * R)
    g = np.linspace(-R, R, npx)
    xx, yy = np.meshgrid(g, g)
    ph = np.arctan2(yy, xx)
    from scipy.integrate import simpson

    def mean(v):
        return simpson(simpson(v, x=g, axis=0), x=g, axis=-1) / (2 * R) ** 2
    for i in range(3):
        for j in range(4):
            s = math.sqrt(1 - mu[j] ** 2)
            dx, dy = r[i] / 2 * (np.cos(ph) * mu[j] + np.sin(ph) * s), r[i] / 2 * (np.sin(ph) * mu[j] - np.cos(ph) * s)
            cov = lambda p, q: mean(p * q) - mean(p) * mean(q)
            want = kx * kx * float(cov(xx - dx, xx + dx)) + ky * ky * float(cov(yy - dy, yy + dy)) + kx * ky * float(cov(xx - dx, yy + dy) + cov(yy - dy, xx + dx))
            ctx.close(C[i, j], want, "covariance of the map at the separation", rtol=1e-6, atol=1e-6)
    ctx.observe("c", C[1, 1])


@harness("maps of one pattern with any positive amplitude, with and without a mask: normalised correlation at two separations and three angles", prove_ms=10000)
def normalised(ctx):
    from scipy.integrate import simpson
    n, size = 18, 3.0
    mask = ctx.choice("mask", [None, (0.3, 1.2)])
    k = ctx.real("amplitude", 0.1, 10)
    g = np.linspace(-size / 2, size / 2, n)
    pat = lambda x, y: 0.3 + x - 0.4 * y + 0.5 * x * y + 0.3 * x * x
    m = k * pat(g[None, :], g[:, None])
    r, mu = np.array([0.1, 0.5]), np.array([-0.7, 0.2, 1.0])
    kw = dict(apply_mask=True, r_min=mask[0], r_max=mask[1]) if mask else dict(apply_mask=False)
    C = ctx.get(E, "corr_kappa_with_mask")(m, size, r, mu, normalization=True, **kw)
    R = size / 2 - 0.5
    u = np.linspace(-R, R, int(n / (size / 2) * R))
    xx, yy = np.meshgrid(u, u)
    ph = np.arctan2(yy, xx)
    if mask:
        # the mask on the pixels of the map, linear in between, counts where it exceeds 0.9
        from scipy.interpolate import RectBivariateSpline
        d = np.hypot(*np.meshgrid(g, g))
        W = RectBivariateSpline(g, g, ((d > mask[0]) & (d < mask[1])).astype(float), kx=1, ky=1, s=0)
        weight = lambda x, y: (W(y, x, grid=False) > 0.9).astype(float)
    else:
        weight = lambda x, y: np.ones(x.shape)

    def total(v):
        return simpson(simpson(v, x=u, axis=0), x=u, axis=-1)
    for i in range(2):
        for j in range(3):
            s = math.sqrt(1 - mu[j] ** 2)
            dx, dy = r[i] / 2 * (np.cos(ph) * mu[j] + np.sin(ph) * s), r[i] / 2 * (np.sin(ph) * mu[j] - np.cos(ph) * s)
            a, b = pat(xx - dx, yy - dy), pat(xx + dx, yy + dy)
            w = weight(xx - dx, yy - dy) * weight(xx + dx, yy + dy)
            cov = lambda p, q: float(total(w * p * q) / total(w) - total(w * p) * total(w * q) / total(w) ** 2)
            ctx.close(C[i, j], cov(a, b) / math.sqrt(cov(a, a) * cov(b, b)), "covariance over the root of both variances", rtol=1e-5, atol=1e-6)


@harness("maps with any mean and gradient inside an annulus: two separations, two angles; correlation independent of the mean, at zero separation positive, and one after normalization", prove_ms=10000)
def masked(ctx):
    n, size = 36, 4.0
    outer, norm = ctx.choice("outer radius, normalization", [(1.3, False), (None, False), (1.3, True)])
    m, k0, kx, ky = field(ctx, 20 if norm else n, size)
    r, mu = np.array([0.0, 0.2]), np.array([-1.0, 0.3])
    F = ctx.get(E, "corr_kappa_with_mask")
    if norm:
        ctx.assume(kx > 0.1)
        g = np.linspace(-size / 2, size / 2, 20)
        m = kx * (g[None, :] - 0.3 * g[:, None] + 0.2 * g[None, :] * g[:, None])
        C = F(m, size, r[:1], mu, apply_mask=True, r_min=0.5, r_max=outer, normalization=True)
        for j in range(2):
            ctx.close(C[0, j], 1, "correlation of the map with itself", rtol=1e-6)
        return
    C = F(m, size, r, mu, apply_mask=True, r_min=0.5, r_max=outer)
    D = F(m - k0, size, r, mu, apply_mask=True, r_min=0.5, r_max=outer)
    R = size / 2 - 0.2
    area = math.pi * (outer ** 2 - 0.25) if outer else (2 * R) ** 2 - math.pi * 0.25
    # integral of x^2 over the annulus, or over the square without its centre, divided by the area
    want = (math.pi * (outer ** 4 - 0.5 ** 4) / 4 if outer else (2 * R) ** 4 / 12 - math.pi * 0.5 ** 4 / 4) / area
    for j in range(2):
        ctx.close(C[0, j], want * (kx ** 2 + ky ** 2), "variance of the map inside the mask (pixels on the edge left out)", rtol=0.35, atol=1e-9)
        for i in range(2):
            ctx.close(C[i, j], D[i, j], "independent of the mean", rtol=1e-6, atol=1e-6)
