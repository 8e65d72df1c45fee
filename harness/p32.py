"""P32 interpolated ray paths follow the light ray through every lens plane"""
from symx.api import registry
from harness import world
import numpy as np
HARNESSES, harness = registry()
U = "pyHalo.utilities"

# source redshift and lens planes: none, unsorted, repeated, at the source, at and next to the finely sampled redshifts
CASES = [(2.0, []), (1.5, [0.5]), (2.0, [0.5, 0.5, 0.3, 1.7, 0.3]), (0.9, [0.88, 0.9, 0.02, 0.46]), (3.1, [3.09, 0.001, 1.23456]), (0.6, [0.4, 0.2, 0.59])]


class Rays(object):
    """multi-plane ray shooting with an arbitrary outcome at every step"""

    def __init__(self, ctx, redshifts, kind):
        self.ctx, self.calls, self.n = ctx, [], 0
        self.redshift_list = np.array(redshifts) if kind == "array" else list(redshifts)
        self.lens_model = self

    def ray_shooting_partial_comoving(self, x, y, ax, ay, z_start, z_stop, kwargs_lens, include_z_start=False, **kw):
        i = len(self.calls)
        ret = tuple(self.ctx.real("s%d_%d" % (i, k), -5000, 5000) for k in range(2)) + tuple(self.ctx.real("a%d_%d" % (i, k), -20, 20) for k in range(2))
        self.calls.append(((x, y, ax, ay), z_start, z_stop, kwargs_lens, ret))
        return ret


def setup(ctx, n_img, cases=CASES):
    c = world.Cosmology(ctx, free=False)
    kind = "list"
    case = ctx.choice("case", [(zs, p, k) for zs, p in cases for k in (("list", "array") if p else ("list",))])
    zs, planes, kind = case
    lens = Rays(ctx, planes, kind)
    xs = [ctx.real("x%d" % i, -10, 10) for i in range(n_img)]
    ys = [ctx.real("y%d" % i, -10, 10) for i in range(n_img)]
    kw = [{"plane": i} for i in range(len(planes))]
    return c, zs, planes, lens, xs, ys, kw


def split(ctx, lens, n_img):
    """calls of every ray: a ray begins at the observer"""
    rays = []
    for call in lens.calls:
        if ctx.same(call[1], 0):
            rays.append([])
        if not rays:
            return None
        rays[-1].append(call)
    return rays if len(rays) == n_img else None


def close_angle(ctx, v, x, d, label):
    ctx.close(v * d, x, label, atol=1e-9)


def follow(ctx, ray, x0, y0, zs, planes, kw):
    """one ray: consecutive steps from the observer through every plane to the source"""
    first = ray[0][0]
    ctx.close(first[0], 0, "rays start at the observer (x)")
    ctx.close(first[1], 0, "rays start at the observer (y)")
    ctx.close(first[2], x0, "rays start towards the image (x)")
    ctx.close(first[3], y0, "rays start towards the image (y)")
    z = 0.0
    stops = []
    for i, (state, za, zb, k, ret) in enumerate(ray):
        ctx.check(abs(float(za) - z) < 1e-12 and float(zb) > float(za), "steps are consecutive and move away from the observer")
        ctx.check(k is kw or k == kw, "deflectors of the given lens model")
        if i:
            prev = ray[i - 1][4]
            ctx.check(all(ctx.same(a, b) for a, b in zip(state, prev)), "each step continues where the last one ended")
        z = float(zb)
        stops.append(z)
    ctx.check(abs(z - zs) < 1e-9, "the ray ends at the source")
    for p in planes:
        ctx.check(min(abs(p - s) for s in stops) < 1e-12, "the ray stops at every lens plane")
    return stops


@harness("one or two images anywhere within 10 arcsec, arbitrary position and direction of the ray after every step; lens planes none, unsorted, repeated, at the source and next to it, as a list or an array", budget=120)
def path(ctx):
    n = ctx.choice("images", [1, 2])
    c, zs, planes, lens, xs, ys, kw = setup(ctx, n)
    fx, fy = ctx.get(U, "interpolate_ray_paths")(xs, ys, lens, kw, zs, cosmo=c)
    ctx.check(len(fx) == n and len(fy) == n, "one pair of functions per image")
    rays = split(ctx, lens, n)
    if rays is None or len(fx) != n or len(fy) != n:
        ctx.check(False, "one ray per image from the observer")
        return
    for i, ray in enumerate(rays):
        stops = follow(ctx, ray, xs[i], ys[i], zs, planes, kw)
        ctx.close(fx[i](0.0), xs[i], "angle of the image at the observer (x)")
        ctx.close(fy[i](0.0), ys[i], "angle of the image at the observer (y)")
        for j in sorted(set([0, 1, len(ray) // 2, len(ray) - 2, len(ray) - 1] + [k for k, s in enumerate(stops) if s in planes])):
            d = float(c.D_C_transverse(stops[j]))
            close_angle(ctx, fx[i](d), ray[j][4][0], d, "angle of the ray on a plane (x)")
            close_angle(ctx, fy[i](d), ray[j][4][1], d, "angle of the ray on a plane (y)")
        ctx.observe("x%d" % i, fx[i](float(c.D_C_transverse(stops[-1]))))


@harness("distances anywhere between two neighbouring planes", budget=90)
def between(ctx):
    c, zs, planes, lens, xs, ys, kw = setup(ctx, 1, [CASES[1], CASES[3]])
    fx, fy = ctx.get(U, "interpolate_ray_paths")(xs, ys, lens, kw, zs, cosmo=c)
    ray = lens.calls
    j = ctx.choice("plane", [0, 1, 2, 20, len(ray) - 1])
    t = ctx.real("t", 0.001, 0.999)
    for k, (f, x0) in enumerate(((fx[0], xs[0]), (fy[0], ys[0]))):
        d1 = float(c.D_C_transverse(float(ray[j][2])))
        a1 = ray[j][4][k] / d1
        d0, a0 = (0.0, x0) if j == 0 else (float(c.D_C_transverse(float(ray[j - 1][2]))), ray[j - 1][4][k] / float(c.D_C_transverse(float(ray[j - 1][2]))))
        v = f(d0 + t * (d1 - d0))
        ctx.close(v, a0 + t * (a1 - a0), "linear in comoving distance between planes")
    ctx.raises(lambda: fx[0](1.01 * float(c.D_C_transverse(zs))), label="no ray behind the source")


@harness("the ray ends at a source anywhere within 10 arcsec", budget=90)
def at_source(ctx):
    n = ctx.choice("images", [1, 2])
    c, zs, planes, lens, xs, ys, kw = setup(ctx, n, CASES[:4])
    sx, sy = ctx.real("sx", -10, 10), ctx.real("sy", -10, 10)
    fx, fy = ctx.get(U, "interpolate_ray_paths")(xs, ys, lens, kw, zs, terminate_at_source=True, source_x=sx, source_y=sy, cosmo=c)
    rays = split(ctx, lens, n)
    if rays is None or len(fx) != n:
        ctx.check(False, "one ray per image from the observer")
        return
    ds = float(c.D_C_transverse(zs))
    for i, ray in enumerate(rays):
        follow(ctx, ray, xs[i], ys[i], zs, planes, kw)
        ctx.close(fx[i](ds), sx, "ends at the source (x)", atol=1e-9)
        ctx.close(fy[i](ds), sy, "ends at the source (y)", atol=1e-9)
        for j in (0, len(ray) // 2, len(ray) - 2):
            d = float(c.D_C_transverse(float(ray[j][2])))
            close_angle(ctx, fx[i](d), ray[j][4][0], d, "the rest of the ray is kept (x)")
            close_angle(ctx, fy[i](d), ray[j][4][1], d, "the rest of the ray is kept (y)")
        ctx.observe("end%d" % i, fx[i](ds))


@harness("mean of one to four rays, at the distances where it is tabulated and between them", budget=120)
def mean(ctx):
    n = ctx.choice("images", [1, 2, 4])
    c, zs, planes, lens, xs, ys, kw = setup(ctx, n, [CASES[1], CASES[2]])
    F = ctx.get(U, "interpolate_ray_paths")
    fx, fy = F(xs, ys, lens, kw, zs, evaluate_at_mean=True, cosmo=c)
    rays = split(ctx, lens, n)
    if rays is None:
        ctx.check(False, "one ray per image from the observer")
        return
    ctx.check(len(fx) == 1 and len(fy) == 1, "a single path")
    for k, (f, start) in enumerate(((fx[0], xs), (fy[0], ys))):
        ctx.close(f(0.0), sum(start) / n, "mean of the images at the observer", atol=1e-9)
        ds = float(c.D_C_transverse(zs))
        ctx.close(f(ds) * ds, sum(r[-1][4][k] for r in rays) / n, "mean of the rays at the source", atol=1e-7)
        for i in (1, 37, 50, 98):
            d = float(c.D_C_transverse(float(np.linspace(0, zs, 100)[i])))
            tot = 0
            for r, s in zip(rays, start):
                kn = [0.0] + [float(c.D_C_transverse(float(q[2]))) for q in r]
                an = [s] + [q[4][k] / e for q, e in zip(r, kn[1:])]
                j = max(m for m in range(len(kn) - 1) if kn[m] <= d)
                tot = tot + an[j] + (an[j + 1] - an[j]) * (d - kn[j]) / (kn[j + 1] - kn[j])
            ctx.close(f(d), tot / n, "mean of the rays", atol=1e-7)
        ctx.observe("mean%d" % k, f(ds))
