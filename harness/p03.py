"""P03 aligning a realization with the source ray shifts each free halo exactly once"""
from symx.api import registry
from harness import world
from harness.fakes import FakeHalo, ray, realization, same_arrays
HARNESSES, harness = registry()


def setup(ctx, n, minz=0):
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, 0.5, 2.0, cosmo=c)
    pat = ctx.choice("fixed", [(False, True, False), (True, False, False), (False, False, True)])
    hs = []
    for i in range(n):
        hs.append(FakeHalo(0.1 * i + 0.05, ctx.real("m%d" % i, 1e6, 1e10), ctx.real("x%d" % i, -20, 20), ctx.real("y%d" % i, -20, 20), ctx.real("z%d" % i, 0.01, 1.99),
                           sub=bool(i % 2), bound=ctx.real("b%d" % i, 1e5, 1e10) if i % 2 else None, fixed=pat[i]))
    return c, lc, hs, realization(ctx, hs, lc, ray(ctx, "cx"), ray(ctx, "cy"), [None], geometry=world.Geo(ctx, c, 0.5, 2.0, 6.0), kw={"a": 1})


def where(hs):
    return [(h.x, h.y) for h in hs]


def moved_once(ctx, c, hs, start, rx, ry, zmin, label):
    for h, (x, y) in zip(hs, start):
        d = c.D_C_z(h.z)
        if h.fixed_position or zmin is not None and bool(h.z < zmin):
            dx = dy = 0.0
        else:
            dx, dy = rx.f(d), ry.f(d)
        ctx.close(h.x, x + dx, label + " (x)", atol=1e-9)
        ctx.close(h.y, y + dy, label + " (y)", atol=1e-9)
        ctx.observe("x", h.x)


def still(ctx, hs, at, label):
    for h, (x, y) in zip(hs, at):
        ctx.close(h.x, x, label + " (x)", atol=1e-9)
        ctx.close(h.y, y, label + " (y)", atol=1e-9)


@harness("up to three halos anywhere (fixed ones in three patterns), arbitrary ray, minimum redshift anywhere or not given: every free halo at or above it moves by the ray's position at its own distance, nobody is lost, the ray becomes the centre")
def shift(ctx):
    n = ctx.choice("n", [0, 1, 3])
    c, lc, hs, r = setup(ctx, n)
    rx, ry = ray(ctx, "rx"), ray(ctx, "ry")
    start = where(hs)
    zmin = ctx.real("min", 0, 2) if ctx.flag("minimum") else None
    s = r.shift_background_to_source(rx, ry) if zmin is None else r.shift_background_to_source(rx, ry, zmin)
    ctx.check(len(s.halos) == n, "no halo lost or added")
    for h in hs:
        ctx.check(any(h.unique_tag == k.unique_tag for k in s.halos), "no halo lost")
    out = [[k for k in s.halos if k.unique_tag == h.unique_tag][0] for h in hs if any(k.unique_tag == h.unique_tag for k in s.halos)]
    for h, k in zip(hs, out):
        ctx.check(k.mass is h.mass and k.z is h.z and k.is_subhalo == h.is_subhalo and k.fixed_position == h.fixed_position, "only the position changes")
    moved_once(ctx, c, out, start, rx, ry, zmin, "shifted by the ray at the halo's distance")
    same_arrays(ctx, s, "arrays of the aligned realization")
    ctx.check(s.rendering_center[0] is rx and s.rendering_center[1] is ry, "the ray is the rendering centre")
    ctx.check(s.rendering_classes == r.rendering_classes and s.geometry is r.geometry and s.lens_cosmo is lc and s.apply_mass_sheet_correction == r.apply_mass_sheet_correction
              and s.kwargs_halo_model == {"a": 1}, "settings kept")


def operate(ctx, op, s, rx, ry):
    M = ctx.load("pyHalo.single_realization")
    if op == "filter":
        return s.filter(ctx.real("aperture", 1, 10), 5.0, [rx], [ry])
    if op == "light":
        return s.filter_subhalos(5.0, 5.0, [0.0], [0.0])
    if op == "bound":
        return s.filter_bound_mass(1e4)
    if op == "split front":
        return s.split_at_z(ctx.real("split", 0.01, 2))[0]
    if op == "split back":
        return s.split_at_z(ctx.real("split", 0.01, 2))[1]
    if op in ("join other", "join self"):
        o = s.filter_bound_mass(1e12) if op == "join other" else s
        return s.join(o)
    if op == "plane":
        return M.realization_at_z(s, s.halos[0].z)[0]
    if op == "inject":
        X = ctx.load("pyHalo.realization_extensions")
        ctx.patch(X, "SIS", lambda h: h)
        return X.RealizationExtensions(s).SIS_injection(1e8, "SIS")
    if op == "black holes joined":
        return s.join(realization(ctx, [], s.lens_cosmo, *s.rendering_center))
    return s


@harness("one or two halos anywhere, aligned, then any of: mass and ray filtering, subhalo filters, either half of a split, joins, restriction to a plane, profile injection, or nothing, in sequences of one (thorough: two) operations; aligning again with another ray moves nobody", max_paths=900)
def once(ctx):
    c, lc, hs, r = setup(ctx, ctx.choice("n", [1, 2]))
    rx, ry = ray(ctx, "rx"), ray(ctx, "ry")
    s = r.shift_background_to_source(rx, ry)
    ops = ["none", "filter", "light", "bound", "split front", "split back", "join other", "join self", "plane", "inject", "black holes joined"]
    for k in range(2 if ctx.thorough else 1):
        if not s.halos:
            break
        s = operate(ctx, ctx.choice("operation %d" % k, ops), s, rx, ry)
    at = where(s.halos)
    centre = s.rendering_center
    t = s.shift_background_to_source(ray(ctx, "r2x"), ray(ctx, "r2y"), ctx.choice("min", [0, 0.3]))
    ctx.check(len(t.halos) == len(at), "nobody lost")
    still(ctx, t.halos, at, "aligning again moves nothing")
    still(ctx, s.halos, at, "aligning again moves nothing in the aligned realization")
    ctx.check(t.rendering_center[0] is centre[0] and t.rendering_center[1] is centre[1], "the centre stays the first ray")
    same_arrays(ctx, t)


@harness("an unaligned realization after the same operations is aligned by the first call", max_paths=600)
def after_operation(ctx):
    c, lc, hs, r = setup(ctx, 2)
    rx, ry = ray(ctx, "rx"), ray(ctx, "ry")
    s = operate(ctx, ctx.choice("operation", ["filter", "light", "bound", "split front", "split back", "join other", "join self", "plane", "inject", "black holes joined"]), r, rx, ry)
    kept = list(s.halos)
    start = where(kept)
    t = s.shift_background_to_source(rx, ry)
    moved_once(ctx, c, t.halos, start, rx, ry, None, "shifted once after the operation")
    ctx.check(len(t.halos) == len(kept), "nobody lost")


@harness("aligning the original a second time, after its aligned version was made, moves no halo of the aligned version")
def original_again(ctx):
    c, lc, hs, r = setup(ctx, 1)
    s = r.shift_background_to_source(ray(ctx, "rx"), ray(ctx, "ry"))
    at = where(s.halos)
    r.shift_background_to_source(ray(ctx, "r2x"), ray(ctx, "r2y"))
    still(ctx, s.halos, at, "the aligned realization stays where it is")
