"""P29 fluctuations, correlated objects and primordial black holes appear where and as requested"""
from symx.api import registry
from harness import world, halos, fakes
from harness.p24 import Geometry, retained
import numpy as np
import math
HARNESSES, harness = registry()
X = "pyHalo.realization_extensions"
COR = "pyHalo.Rendering.correlated_structure"
POS = "pyHalo.Rendering.SpatialDistributions.correlated"


class H(fakes.FakeHalo):
    """halo that records how its normalization is changed"""

    def __init__(self, *a, **k):
        fakes.FakeHalo.__init__(self, *a, **k)
        self.rescaled = []

    def rescale_normalization(self, factor, force=False, log=True):
        self.rescaled.append(factor)


def values(v):
    return list(np.asarray(v, dtype=object).reshape(-1))


def drawn(ctx, kind):
    return [e for e in ctx.rng.log if e[0] == kind]


SHAPES = [("ring", 10, True, [0]), ("ring", 10, True, [2]), ("ring", 1, True, [2]), ("ring", 1, False, [2]),
          ("ellipse", 10, True, [0]), ("ellipse", 10, True, [1]), ("ellipse", 1, True, [2]), ("ellipse", 1, False, [2]),
          ("aperture", 10, True, [0, 0]), ("aperture", 10, True, [0, 1]), ("aperture", 10, True, [1, 1]), ("aperture", 1, True, [2, 1]), ("aperture", 1, True, [2, 2]), ("aperture", 1, False, [0, 2]), ("square", 2, True, [1])]


@harness("ring, ellipse and two apertures of any size and place; 0 to 3 fluctuations; with and without a limit on their number", max_paths=900, prove_ms=10000)
def fluctuations(ctx):
    shape, cut, rescale, counts = ctx.choice("shape, limit, rescaled, numbers drawn", SHAPES)
    ctx.rng.counts, ctx.rng.tags = list(counts), True
    c, lc = halos.plain_lens(ctx)
    hs = [fakes.FakeHalo(10.5, 1e7, 0.1, 0.2, 0.5, sub=True), fakes.FakeHalo(11.5, 1e8, 0.1, -0.2, 0.75)]
    snap = fakes.snapshot(hs)
    R = fakes.realization(ctx, hs, lc, rx=0.5, ry=-0.25, classes=[object()], geometry=Geometry(c), kw={"some": "argument"})
    ext = ctx.get(X, "RealizationExtensions")(R)
    lam, amp, size, var, scale = ctx.real("lambda", 0.1, 2), ctx.real("amp", 0.001, 0.1), ctx.real("size", 0.05, 1), ctx.real("spread", 0, 0.5), ctx.real("scale", 0.1, 2)
    k = c.kpc_proper_per_asec(0.5)
    if shape == "ring":
        lo, hi = ctx.real("lo", 0.2, 1), ctx.real("width", 0.01, 1)
        args = {"rmin": lo, "rmax": lo + hi}
        area = math.pi * ((lo + hi) ** 2 - lo ** 2)
    elif shape == "ellipse":
        a, b, wa, wb, th = ctx.choice("axes, widths, angle", [(0.5, 0.25, 0.5, 0.125, 0.6), (0.25, 0.75, 0.125, 1.0, -1.2), (0.5, 0.5, 0.25, 0.0, 0.0)])
        args = {"amin": a, "amax": a + wa, "bmin": b, "bmax": b + wb, "angle": th}
        area = math.pi * ((a + wa) * (b + wb) - a * b)
    else:
        ap = ctx.real("aperture", 0.02, 0.2)
        px, py = [ctx.real("x", -1.2, -0.8), 1.0 + 0.0], [0.25, ctx.real("y", -1, 1)]
        args = {"x_images": px, "y_images": py, "aperture": ap}
        area = math.pi * ap ** 2
    given = dict(args)
    call = lambda: ext.add_ULDM_fluctuations(lam, amp, size, var, cut, scale, shape, args, rescale_fluc_amp=rescale)
    if shape == "square":
        ctx.raises(call, label="unknown shape is an error")
        return
    N = call()
    ctx.check(set(args) == set(given) and all(args[q] is given[q] for q in given), "the caller's arguments are not changed")
    po = drawn(ctx, "poisson")
    want = scale * area * k ** 2 / (math.pi * size ** 2)
    for e in po:
        for l in values(e[1][0]):
            ctx.close(l, want, "mean number: area over the area of a fluctuation", rtol=1e-9)
    ns = [int(n) for e in po for n in values(e[2])]
    ctx.check(len(ns) == (2 if shape == "aperture" else 1), "number of fluctuations drawn for every region")
    mean = sum(ns) / len(ns)
    seen = [n for n in ns if n]
    means = {mean, sum(seen) / len(seen) if seen else 0.0}      # averaged over all or over the non-empty apertures
    capped = {rescale and m > cut for m in means}
    new = [h for h in N.halos if all(h is not o for o in hs)]
    fakes.unchanged(ctx, [h for h in N.halos if any(h is o for o in hs)], snap, "halos are untouched")
    ctx.check(len(N.halos) == len(new) + len(hs), "halos and fluctuations exactly once")
    for n in range(len(new)):
        for j in range(n):
            ctx.check(new[n] is not new[j], "halos and fluctuations exactly once")
    norm = drawn(ctx, "normal")
    kappa = [(v, e[1]) for e in norm if not hasattr(e[1][0], "t") and e[1][0] == 0 for v in values(e[2])]
    width = [(v, e[1]) for e in norm if hasattr(e[1][0], "t") or e[1][0] != 0 for v in values(e[2])]
    total = len(new)
    ctx.check(len(kappa) == total and len(width) == total, "independent amplitude and size for every fluctuation")
    by_tag = list(new)
    if shape == "aperture":
        inside = [[], []]
        for h in by_tag:
            i = 0 if bool(h.x <= 0) else 1
            inside[i].append(h)
            ctx.le((h.x - px[i]) ** 2 + (h.y - py[i]) ** 2, ap ** 2 * (1 + 1e-9), "fluctuations inside the apertures")
        got = [len(v) for v in inside]
        if True not in capped:
            ctx.check(got == ns, "number drawn for an image lies around this image")
        elif False not in capped:
            ctx.check(all(g == cut or (g == 0 and n == 0) for g, n in zip(got, ns)), "number of fluctuations limited")
    else:
        ctx.check(total == (cut if True in capped else ns[0]), "number of fluctuations as drawn, up to the limit")
    for h in by_tag:
        kw, num = h.lenstronomy_params
        kw = kw[0]
        ctx.check(num is None and h.lenstronomy_ID == ["GAUSSIAN"] and h.z == 0.5, "Gaussian convergence at the lens")
        ctx.close(kw["center_x"], h.x, "profile at the position of the fluctuation", rtol=1e-12, atol=1e-12)
        ctx.close(kw["center_y"], h.y, "profile at the position of the fluctuation", rtol=1e-12, atol=1e-12)
        s = kw["sigma"]
        ctx.eq_or([(s, v) for v, p in width] + [(s, -v) for v, p in width], "sizes as drawn")
        ctx.le(0, s, "sizes are positive")
        ctx.eq_or([(kw["amp"], kappa[j][0] * 2 * math.pi * s ** 2) for j in range(len(kappa))], "amplitude gives the convergence drawn at the centre")
        if shape == "ring":
            r2 = h.x ** 2 + h.y ** 2
            ctx.le(lo ** 2 * (1 - 1e-9), r2, "inside the ring")
            ctx.le(r2, (lo + hi) ** 2 * (1 + 1e-9), "inside the ring")
        if shape == "ellipse":
            u, v = h.x * math.cos(th) + h.y * math.sin(th), h.y * math.cos(th) - h.x * math.sin(th)
            ctx.le((a * b) ** 2 * (1 - 1e-6), (u * b) ** 2 + (v * a) ** 2, "outside the inner ellipse")
            ctx.le((u * (b + wb)) ** 2 + (v * (a + wa)) ** 2, ((a + wa) * (b + wb)) ** 2 * (1 + 1e-6), "inside the outer ellipse")
    for i in range(total):
        ctx.eq_or([(h.lenstronomy_params[0][0]["amp"], kappa[i][0] * 2 * math.pi * h.lenstronomy_params[0][0]["sigma"] ** 2) for h in by_tag], "every amplitude drawn is used")
    for v, (mu, sd) in kappa:
        if len(capped) == 1:
            f = math.sqrt(cut / mean) if True in capped else 1.0
            alt = [math.sqrt(cut / m) if True in capped else 1.0 for m in means]
            ctx.eq_or([(sd, amp * g) for g in alt], "amplitudes of the requested spread, reduced where the number is limited")
    for v, (mu, sd) in width:
        ctx.close(mu, size / k, "sizes around the requested size", rtol=1e-9)
        ctx.close(sd, var / k, "spread of the sizes", rtol=1e-9, atol=1e-12)
    if total:
        retained(ctx, R, N, None)
    ctx.observe("n", total)


class Map(object):
    """convergence of the given lens models: levels fixed by the owner of the first profile; the pixels asked for are recorded"""

    def __init__(self, ctx, bad=False):
        self.ctx, self.asked, self.levels, self.bad = ctx, [], {}, bad

    def level(self, owner):
        if owner not in self.levels:
            i = len(self.levels)
            self.levels[owner] = [self.ctx.real("k%d%d" % (i, j), 0.001, 1) for j in range(3)]
        return self.levels[owner]

    def __call__(self, lens_model_list, **kw):
        me = self

        class Model(object):
            def kappa(self, x, y, kwargs, *a, **k):
                x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
                owners = [q["owner"] for q in kwargs]
                out = np.empty(len(x.reshape(-1)), dtype=object if me.ctx.symbolic else float)
                for i in range(len(out)):
                    v = 0
                    for o in owners:
                        v = v + me.level(o)[i % 3]
                    out[i] = v
                if me.bad:
                    out[len(out) // 2 + int(len(out) ** 0.5) // 2] = float("nan")
                me.asked.append((list(lens_model_list), owners, x, y, out))
                return out.reshape(x.shape)
        return Model()


def recorder(ctx, placed, lo=-5, hi=5):
    """positions correlated with a map (their distribution is P13): anywhere"""

    def draw(self, n, r_max, density, z, shift_x=0., shift_y=0.):
        n = int(n)
        i = len(placed)
        k = self._geo.kpc_per_arcsec(z)
        xs = [ctx.real("px%d_%d" % (i, j), lo, hi) for j in range(n)]
        ys = [ctx.real("py%d_%d" % (i, j), -5, 5) for j in range(n)]
        placed.append((n, r_max, density, z, shift_x, shift_y, xs, ys))
        return np.array([x * k for x in xs]), np.array([y * k for y in ys])
    return draw


class Sky(object):
    """light ray: position at the comoving distance of each plane"""

    def __init__(self, c, at):
        self.at = [(c.D_C_transverse(z), v) for z, v in at.items()]

    def __call__(self, d):
        for e, v in self.at:
            if abs(e - d) <= 1e-6 * e:
                return v
        return 1e3


def window(ctx, c, radius, pixel, entry, ax, ay):
    """pixels inside the aperture and the mass they hold"""
    names, owners, x, y, kap = entry
    px = max(20, int(2 * radius / pixel))
    ctx.check(len(x) == px ** 2, "resolution of the map as requested")
    dx, dy = x - ax, y - ay
    ctx.check(abs(dx.min() + radius) < 1e-9 and abs(dx.max() - radius) < 1e-9 and abs(dy.min() + radius) < 1e-9 and abs(dy.max() - radius) < 1e-9, "map covers the aperture around the light ray")
    ins = np.hypot(dx, dy) <= radius
    tot = 0
    for v in kap[ins]:
        if not (isinstance(v, float) and math.isnan(v)):
            tot = tot + v
    return ins, tot * math.pi * radius ** 2 / ins.sum()


def start(ctx, where, subs=(), sheets=True):
    c, lc = halos.plain_lens(ctx)
    hs = [H(10.5 + i, 1e8, x, y, z, sub=i in subs) for i, (x, y, z) in enumerate(where)]
    R = fakes.realization(ctx, hs, lc, rx=0.5, ry=-0.25, classes=[object()], sheets=sheets, geometry=Geometry(c), kw={"some": "argument"})
    return c, lc, hs, R, ctx.get(X, "RealizationExtensions")(R)


def mass_function(ctx, kind):
    if kind == "delta":
        return ctx.get("pyHalo.Rendering.MassFunctions.delta_function", "DeltaFunction")
    return ctx.get("pyHalo.Rendering.MassFunctions.gaussian", "Gaussian")


CASES = [("delta", 0.1, 0.01, True, False), ("delta", 0.2, 0.008, False, True), ("gauss", 0.1, 0.01, True, False), ("gauss", 0.1, 0.03, False, False)]


def close_all(ctx, got, want, label):
    """the same numbers in some order"""
    ctx.check(len(got) == len(want), label)
    left = list(want)
    for g in got:
        m = [i for i, v in enumerate(left) if v is g] or [i for i, v in enumerate(left) if bool(ctx.abs(g - v) <= 1e-9 * (1 + ctx.abs(v)))]
        ctx.check(bool(m), label)
        del left[m[0]]


@harness("planes with one halo anywhere and one without halos near the ray; any convergence map, mass fraction and mass; up to 2 objects; delta function and log-normal masses", max_paths=500, prove_ms=10000)
def correlated(ctx):
    kind, radius, pixel, rescale, nan = ctx.choice("masses, radius, pixel, normalization rescaled, undefined pixel", CASES)
    hx = ctx.real("hx", -0.5, 0.5)
    ctx.rng.tags = True
    empty = ctx.choice("plane without halos near the ray", [0.25, 1.25])
    c, lc, hs, R, ext = start(ctx, [(hx, 0.0, 0.5), (0.06, -0.03, empty), (-2.0, 0.0, 0.5)], subs=(0,))
    snap = fakes.snapshot(hs)
    r = radius if kind == "delta" else radius
    ax, ay = Sky(c, {0.5: 0.05, empty: 0.3}), Sky(c, {0.5: -0.03, empty: -0.2})
    f = ctx.real("fraction", 0.01, 0.9)
    lm = 5.0
    sd = 0.5
    kw = {"mass_fraction": f, "logM": lm}
    if kind == "gauss":
        kw["logM_sigma"] = sd
    kappa, placed = Map(ctx, nan), []
    ctx.patch(ctx.load(COR), "LensModel", kappa)
    ctx.patch(ctx.get(POS, "Correlated2D"), "draw", recorder(ctx, placed))
    ctx.rng.poisson_max = 2
    N = ext.add_correlated_structure(mass_function(ctx, kind), kw, "PT_MASS", [ax], [ay], pixel, r, rescale)
    d2 = (hx - 0.05) ** 2 + 0.03 ** 2
    near = bool(d2 < r ** 2 * (1 - 1e-9))
    if not near and not bool(d2 > r ** 2 * (1 + 1e-9)):
        return
    po = drawn(ctx, "poisson")
    new = [h for h in N.halos if h.mdef == "PT_MASS"]
    if not near:
        ctx.check(not new and not placed, "objects only where there are halos")
    else:
        ctx.check(len(kappa.asked) == 1 and kappa.asked[0][1] == [10.5], "map of the halos of the plane near the ray")
        ins, mass = window(ctx, c, r, pixel, kappa.asked[0], 0.05, -0.03)
        one = 10 ** lm if kind == "delta" else 10 ** (lm + sd ** 2 * math.log(10) / 2)
        mean = f * mass * lc.sigma_crit_arcsecond_interp(0.5) / one
        ctx.check(len(po) == 1, "number of objects drawn once for the plane")
        for l in values(po[0][1][0]):
            ctx.close(l, mean, "objects hold the requested fraction of the mass in the aperture", rtol=1e-6)
        n = int(values(po[0][2])[0])
        ctx.check(len(new) == n, "as many objects as drawn")
        if n:
            ctx.check(len(placed) == 1 and placed[0][0] == n, "every object placed along the map")
            _, rm, dens, z, sx, sy, xs, ys = placed[0]
            ctx.check(rm == r and z == 0.5 and abs(sx - 0.05) < 1e-9 and abs(sy + 0.03) < 1e-9, "placed around the light ray at the plane")
            flat = np.asarray(dens, dtype=object).reshape(-1)
            ctx.check(np.ndim(dens) == 2 and len(flat) == len(ins), "placed by the map")
            tot = flat.sum()
            mid = len(ins) // 2 + int(len(ins) ** 0.5) // 2
            for i in (0, mid - 3, mid - 2, mid - 1, mid):
                v = kappa.asked[0][4][i]
                bad = isinstance(v, float) and math.isnan(v)
                ctx.close(flat[i], v if ins[i] and not bad else 0.0, "placed by the convergence inside the aperture", rtol=1e-9, atol=1e-12)
            close_all(ctx, [h.x for h in new], xs, "objects at the positions drawn")
            for h in new:
                ctx.check(bool(h.z == 0.5) and not h.is_subhalo and h.fixed_position, "objects on the plane of the halos")
                i = [j for j, v in enumerate(xs) if v is h.x or bool(ctx.abs(v - h.x) <= 1e-9)]
                ctx.eq_or([(h.y, ys[j]) for j in i], "objects at the positions drawn")
        if kind == "delta":
            for h in new:
                ctx.close(h.mass, 10 ** lm, "objects of the given mass", rtol=1e-9)
        elif n:
            g = [(v, e[1]) for e in drawn(ctx, "normal") for v in values(e[2])]
            ctx.check(len(g) == n, "independent masses")
            for v, (mu, s) in g:
                ctx.check(mu == lm and s == sd, "log-normal masses with the given mean and width")
            for i, h in enumerate(new):
                ctx.eq_or([(h.mass, 10 ** v) for v, _ in g], "masses as drawn")
    old = [h for h in N.halos if h.mdef != "PT_MASS"]
    ctx.check(len(old) == 3 and sorted(h.unique_tag for h in old) == [10.5, 11.5, 12.5], "halos are kept")
    for h, s in zip(sorted(old, key=lambda h: h.unique_tag), hs):
        ctx.check(h.x is s.x or bool(h.x == s.x), "halos stay where they are")
        ctx.check(h.z == s.z and h.mass == s.mass, "halos stay as they are")
        want = [1 - f] if rescale and near and h.unique_tag == 10.5 else []
        ctx.check(len(h.rescaled) == len(want), "mass moved into objects is removed from the halos near the ray only, once")
        for a, b in zip(h.rescaled, want):
            ctx.close(a, b, "mass moved into objects is removed from the halos near the ray", rtol=1e-9)
    fakes.unchanged(ctx, hs, snap, "the given realization is not changed")
    ctx.check(all(not h.rescaled for h in hs), "the given realization is not changed")
    ctx.check(N.apply_mass_sheet_correction == R.apply_mass_sheet_correction and N.rendering_center == R.rendering_center, "same realization settings")
    ctx.check({k: v for k, v in kw.items() if k != "draw_poisson"} == {k: v for k, v in kw.items() if k in ("mass_fraction", "logM", "logM_sigma")}, "arguments kept")
    fakes.same_arrays(ctx, N)
    ctx.observe("n", len(new))


@harness("two images with the same halo near both, near one or near none; two planes", max_paths=500)
def images(ctx):
    ctx.rng.tags = True
    c, lc, hs, R, ext = start(ctx, [(0.0, 0.0, 0.5), (0.5, 0.0, 0.75)], subs=(0,))
    f = ctx.real("fraction", 0.01, 0.9)
    second = ctx.choice("second image", [0.03, 0.5, 2.0])
    rescale = ctx.flag("rescaled")
    ax = [Sky(c, {0.5: 0.02, 0.75: 0.0}), Sky(c, {0.5: second, 0.75: second})]
    ay = [Sky(c, {0.5: 0.0, 0.75: 0.01})] * 2
    kappa, placed = Map(ctx), []
    ctx.patch(ctx.load(COR), "LensModel", kappa)
    ctx.patch(ctx.get(POS, "Correlated2D"), "draw", recorder(ctx, placed))
    ctx.rng.poisson_max = 1
    N = ext.add_correlated_structure(mass_function(ctx, "delta"), {"mass_fraction": f, "logM": 6.0}, "PT_MASS", ax, ay, 0.02, 0.1, rescale)
    near = {(0, 10.5)} | ({(1, 10.5)} if second == 0.03 else {(1, 11.5)} if second == 0.5 else set())
    ctx.check(len(drawn(ctx, "poisson")) == len(near), "objects drawn for every image and plane with halos near it")
    total = sum(int(values(e[2])[0]) for e in drawn(ctx, "poisson"))
    new = [h for h in N.halos if h.mdef == "PT_MASS"]
    ctx.check(len(new) == total, "as many objects as drawn for all images")
    for h in new:
        m = [p for p in placed if p[3] == h.z]
        ctx.check(bool(m), "objects on the plane of the halos")
        ctx.eq_or([(h.x, v) for p in m for v in p[6]], "objects at the positions drawn")
    ctx.check(sorted(h.unique_tag for h in N.halos if h.mdef != "PT_MASS") == [10.5, 11.5], "halos are kept")
    for h in N.halos:
        if h.mdef != "PT_MASS":
            want = rescale and any(t == h.unique_tag for _, t in near)
            ctx.check(len(h.rescaled) == int(want), "halo near several images loses its mass once")
            for v in h.rescaled:
                ctx.close(v, 1 - f, "fraction of the mass removed", rtol=1e-9)
    ctx.observe("n", total)


PBH = [("DELTA", (0.1, 0.3), [1] * 6), ("DELTA", (0.3, 0.1), [0, 2, 0, 1, 2, 0]), ("DELTA", (0.3, 0.1), [0] * 6), ("GAUSSIAN", (0.2, 0.1), [1, 0, 0, 1, 0, 2]), ("OTHER", (0.2, 0.2), [1])]


@harness("two images with apertures of their own, a plane in front of and a plane behind the lens; delta function and log-normal masses; any fractions", max_paths=700, prove_ms=10000)
def black_holes(ctx):
    kind, radii, counts = ctx.choice("masses, apertures, numbers drawn", PBH)
    ctx.rng.counts, ctx.rng.tags = list(counts), True
    c, lc, hs, R, ext = start(ctx, [(0.0, 0.0, 0.25), (1.0, 0.0, 1.25)])
    planes = [(0.25, 1.0), (1.25, 0.75)]
    f, fh = ctx.real("fraction", 0.01, 0.9), ctx.real("halos", 0.05, 0.95)
    lm, sd = 6.0, 0.25
    ax = [Sky(c, {0.25: 0.02, 1.25: -1.0}), Sky(c, {0.25: 2.0, 1.25: 1.01})]
    ay = [Sky(c, {0.25: 0.0, 1.25: 0.5}), Sky(c, {0.25: 0.75, 1.25: 0.0})]
    kappa, placed = Map(ctx), []
    ctx.patch(ctx.load(COR), "LensModel", kappa)
    ctx.patch(ctx.get(POS, "Correlated2D"), "draw", recorder(ctx, placed, 10, 20))
    call = lambda: ext.add_primordial_black_holes(f, lm, fh, ax, ay, list(radii), arcsec_per_pixel=0.02, mass_function_type=kind, logM_pbh_sigma=sd if kind == "GAUSSIAN" else None)
    if kind == "OTHER":
        ctx.raises(call, label="unknown mass function is an error")
        return
    N = call()
    one = 10 ** lm if kind == "DELTA" else 10 ** (lm + sd ** 2 * math.log(10) / 2)
    G = ctx.get("pyHalo.Cosmology.geometry", "Geometry")
    po = [(values(e[1][0])[0], int(values(e[2])[0])) for e in drawn(ctx, "poisson")]
    ctx.check(len(po) == 6, "a smooth population on every plane of every image, a clustered one where there are halos")
    used = []
    where = []
    for i, rad in enumerate(radii):
        g = G(c, 0.5, 2.0, 2 * rad, "DOUBLE_CONE")
        for z, dz in planes:
            want = (1 - fh) * f * c.rho_dark_matter_crit * g.volume_element_comoving(z, dz) / one
            m = [j for j, (l, n) in enumerate(po) if j not in used and ctx.same(l, want, rtol=1e-6)]
            ctx.check(bool(m), "smooth objects: the rest of the mass fraction in the volume of the plane")
            used.append(m[0])
            where += [(z, ax[i](c.D_C_transverse(z)), ay[i](c.D_C_transverse(z)), rad * g.rendering_scale(z))] * po[m[0]][1]
    ctx.check(len(kappa.asked) == 2, "maps where there are halos near an image")
    for e, z, i in zip(kappa.asked, (0.25, 1.25), (0, 1)):
        ins, mass = window(ctx, c, radii[i], 0.02, e, ax[i](c.D_C_transverse(z)), ay[i](c.D_C_transverse(z)))
        want = fh * f * mass * lc.sigma_crit_arcsecond_interp(z) / one
        m = [j for j, (l, n) in enumerate(po) if j not in used and ctx.same(l, want, rtol=1e-6)]
        ctx.check(bool(m), "clustered objects: the mass fraction of halos in the aperture of the image")
        used.append(m[0])
    new = [h for h in N.halos if h.mdef == "PT_MASS"]
    ctx.check(len(new) == sum(n for _, n in po), "as many objects as drawn")
    clumpy = [(p[3], v) for p in placed for v in p[6]]
    left = list(new)
    for z, v in clumpy:
        m = [h for h in left if h.z == z and (h.x is v or ctx.same(h.x, v))]
        ctx.check(bool(m), "clustered objects at the positions drawn")
        left.remove(m[0])
    ctx.check(len(left) == len(where), "smooth objects around every image")
    for z, x, y, r in where:
        m = [h for h in left if h.z == z and ctx.is_true(ctx.abs(h.x - x) <= 0.5)]
        ctx.check(bool(m), "smooth objects around every image")
        ctx.le((m[0].x - x) ** 2 + (m[0].y - y) ** 2, r ** 2 * (1 + 1e-6), "smooth objects inside the rendering area of the plane around the image")
        left.remove(m[0])
    if kind == "DELTA":
        for h in new:
            ctx.close(h.mass, 10 ** lm, "objects of the given mass", rtol=1e-9)
    else:
        g = [(v, e[1]) for e in drawn(ctx, "normal") for v in values(e[2])]
        ctx.check(len(g) == len(new) and all(mu == lm and s == sd for _, (mu, s) in g), "independent log-normal masses with the given mean and width")
    for h in N.halos:
        if h.mdef != "PT_MASS":
            ctx.check(len(h.rescaled) == 1, "mass moved into objects is removed once")
            ctx.close(h.rescaled[0], 1 - fh * f, "mass moved into objects is removed from the halos", rtol=1e-9)
    ctx.check(all(not h.rescaled for h in hs), "the given realization is not changed")
    ctx.observe("n", len(new))


@harness("any number, mean, width and density; up to 3 objects, Poisson or rounded", max_paths=200)
def masses(ctx):
    kind = ctx.choice("masses", ["delta", "gauss"])
    poisson = ctx.flag("poisson")
    ctx.rng.poisson_max = 3
    if kind == "delta":
        m, v, rho = ctx.real("m", 1, 10) * 1e4, ctx.real("v", 0.1, 10), ctx.real("rho", 0, 3) * 1e4
        F = mass_function(ctx, kind)(m, v, rho, poisson)
        mean = rho * v / m
    else:
        mean, mu, sd = ctx.real("n", 0, 3.4), ctx.real("mu", 4, 7), ctx.real("sd", 0.01, 1)
        F = mass_function(ctx, kind)(mean, mu, sd, poisson)
    if not poisson:
        ctx.assume(mean <= 3.4)
    got = list(F.draw())
    if poisson:
        po = drawn(ctx, "poisson")
        ctx.check(len(po) == 1, "number drawn once")
        ctx.close(values(po[0][1][0])[0], mean, "mean number of objects: density times volume over mass", rtol=1e-9)
        ctx.check(len(got) == int(values(po[0][2])[0]), "as many masses as drawn")
    else:
        ctx.le(len(got) - 0.5, mean + 1e-9, "mean number, rounded")
        ctx.le(mean, len(got) + 0.5 + 1e-9, "mean number, rounded")
    if kind == "delta":
        for g in got:
            ctx.close(g, m, "all masses alike", rtol=1e-9)
    else:
        g = [(v, e[1]) for e in drawn(ctx, "normal") for v in values(e[2])]
        ctx.check(len(g) == len(got), "independent masses")
        for (v, (a, b)), q in zip(g, got):
            ctx.close(a, mu, "log-normal masses", rtol=1e-9)
            ctx.close(b, sd, "log-normal masses", rtol=1e-9)
            ctx.close(ctx.log10(q), v, "log-normal masses", atol=1e-9)
    ctx.observe("n", len(got))
