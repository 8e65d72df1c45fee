"""P02 selecting, splitting and joining realizations are exact set operations on halos"""
from symx.api import registry
from harness import world
from harness.fakes import FakeHalo, ray, realization, snapshot, unchanged, same_arrays
import numpy as np
HARNESSES, harness = registry()


def setup(ctx, plan, tags=None, base="h", c=None, lc=None, centers=None, same_xy=False):
    """plan: (redshift, is_subhalo)"""
    c = c or world.Cosmology(ctx)
    lc = lc or world.free_lens_cosmo(ctx, 0.5, 2.0, cosmo=c)
    hs = []
    for i, (z, s) in enumerate(plan):
        t = tags[i] if tags else 0.1 * i + 0.05
        hs.append(FakeHalo(t, ctx.real("%s_m%d" % (base, i), 1e5, 1e11), ctx.real("%s_x%d" % (base, i), -20, 20), ctx.real("%s_y%d" % (base, i), -20, 20), z, sub=s,
                           r3d=50.0 + i if s else None, bound=ctx.real("%s_b%d" % (base, i), 1e4, 1e11) if s else None, fixed=bool(i % 2)))
    cx, cy = centers or (ray(ctx, "cx"), ray(ctx, "cy"))
    g = world.Geo(ctx, c, 0.5, 2.0, 6.0)
    cls = [None, None]
    r = realization(ctx, hs, lc, cx, cy, cls, sheets=ctx.choice("sheets", [True, False]) if base == "h" else True, geometry=g, kw={"some": "model"})
    return c, lc, hs, r


def subset(ctx, out, hs, label, order=True):
    ids = [id(h) for h in out]
    ctx.check(len(set(ids)) == len(ids), label + ": no halo twice")
    ctx.check(all(any(h is k for k in hs) for h in out), label + ": the identical halos")


def inherits(ctx, f, r, label, sheets=True):
    ctx.check(f.rendering_center[0] is r.rendering_center[0] and f.rendering_center[1] is r.rendering_center[1], label + ": rendering centre kept")
    ctx.check(f.rendering_classes == r.rendering_classes, label + ": rendering classes kept")
    ctx.check(f.geometry is r.geometry and f.lens_cosmo is r.lens_cosmo and f.kwargs_halo_model == r.kwargs_halo_model, label + ": settings kept")
    if sheets:
        ctx.check(f.apply_mass_sheet_correction == r.apply_mass_sheet_correction, label + ": mass sheet setting kept")


def decide(ctx, h, out, must, may, label):
    """kept whenever must holds, dropped whenever may fails (they differ at most on the boundary)"""
    if any(h is k for k in out):
        ctx.check(may, label + ": only halos its rule selects")
    else:
        ctx.check(ctx.implies(must, False), label + ": every halo its rule selects")
    ctx.observe("kept", 1.0 if any(h is k for k in out) else 0.0)


PLANS = [[(0.5, True), (0.5, False), (0.7, False)], [(0.5, True), (0.5, True)], []]


@harness("up to three halos of both kinds, any masses, bound masses and thresholds: subhalos below the bound mass removed, field halos always kept")
def bound_mass(ctx):
    c, lc, hs, r = setup(ctx, ctx.choice("halos", PLANS))
    snap = snapshot(hs)
    t = ctx.real("threshold", 1e3, 1e12)
    f = r.filter_bound_mass(t)
    subset(ctx, f.halos, hs, "bound mass")
    for h in hs:
        keep = True if not h.is_subhalo else h._bound >= t
        decide(ctx, h, f.halos, keep, keep, "bound mass")
    same_arrays(ctx, f)
    inherits(ctx, f, r, "bound mass")
    unchanged(ctx, r.halos, snap, "input unchanged")
    ctx.check(r.halos is not f.halos, "input list not shared")


@harness("up to two subhalos and one field halo, one or two apertures anywhere, any radius and threshold: light subhalos outside every aperture removed", max_paths=900, budget=120)
def light_subhalos(ctx):
    c, lc, hs, r = setup(ctx, ctx.choice("halos", [[(0.5, True)], [(0.5, False), (0.5, True)], [(0.7, False), (0.7, False)], [(0.5, True), (0.5, True)], []]))
    snap = snapshot(hs)
    n = ctx.choice("apertures", [1, 2]) if len(hs) < 2 else 1
    xs, ys = ctx.reals("ax", n, -20, 20), ctx.reals("ay", n, -20, 20)
    R = ctx.real("radius", 0.001, 20)
    lm = ctx.real("log10 mass", 4, 12)
    f = r.filter_subhalos(R, lm, xs, ys)
    subset(ctx, f.halos, hs, "light subhalos")
    for h in hs:
        if not h.is_subhalo:
            must = may = True
        else:
            must, may = h.mass > 10 ** lm, h.mass >= 10 ** lm
            for a, b in zip(xs, ys):
                d2 = (h.x - a) ** 2 + (h.y - b) ** 2
                must, may = must | (d2 < R ** 2), may | (d2 <= R ** 2)
        decide(ctx, h, f.halos, must, may, "light subhalos")
    same_arrays(ctx, f)
    inherits(ctx, f, r, "light subhalos")
    unchanged(ctx, r.halos, snap, "input unchanged")


def any_planes(ctx, n):
    return [(ctx.real("z%d" % i, 0.01, 1.99), bool(i % 2)) for i in range(n)]


@harness("up to three halos at any redshifts (also equal ones), any split redshift: every halo in exactly one half, on the correct side")
def split(ctx):
    n = ctx.choice("n", [0, 1, 2, 3])
    plan = any_planes(ctx, n)
    if n == 3:
        plan[2] = (plan[0][0], False)
    c, lc, hs, r = setup(ctx, plan)
    snap = snapshot(hs)
    zs = ctx.real("split", 0.01, 2)
    a, b = r.split_at_z(zs)
    subset(ctx, list(a.halos) + list(b.halos), hs, "split")
    ctx.check(len(a.halos) + len(b.halos) == len(hs), "split: no halo lost or in both halves")
    for h in a.halos:
        ctx.check(h.z <= zs, "split: first half not behind the split")
    for h in b.halos:
        ctx.check(h.z >= zs, "split: second half not in front of the split")
    ctx.observe("n", float(len(a.halos)))
    for f in (a, b):
        same_arrays(ctx, f)
        inherits(ctx, f, r, "split")
    unchanged(ctx, r.halos, snap, "input unchanged")


@harness("two realizations of up to three halos each, sharing any subset (five patterns, shared halos at any position), any pairwise different tags; rendering classes of the first or of both", max_paths=900)
def join(ctx):
    pat = ctx.choice("shared", [([0, 1], [2]), ([0, 1], [1, 0]), ([0, 1, 2], [1]), ([0], [1, 0, 2]), ([], [0]), ([0], []), ([0, 1], [1, 2])])
    n = 1 + max(pat[0] + pat[1])
    tags = [ctx.real("tag%d" % i, 0, 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(tags[i] != tags[j])
    c, lc, hs, r = setup(ctx, [(0.5, bool(i % 2)) for i in range(n)], tags)
    mk = lambda idx, cls: realization(ctx, [hs[i] for i in idx], lc, ray(ctx, "cx"), ray(ctx, "cy"), cls, geometry=world.Geo(ctx, c, 0.5, 2.0, 6.0))
    A, B = mk(pat[0], ["a"]), mk(pat[1], ["b", "c"])
    both = ctx.flag("join classes")
    J = A.join(B, join_rendering_classes=both) if both else A.join(B)
    want = sorted(set(pat[0]) | set(pat[1]))
    subset(ctx, J.halos, hs, "join")
    ctx.check(len(J.halos) == len(want), "join: every distinct halo once")
    for i in want:
        ctx.check(sum(h is hs[i] for h in J.halos) == 1, "join: every distinct halo once")
    ctx.check(J.rendering_classes == (["a", "b", "c"] if both else ["a"]), "join: rendering classes")
    ctx.check(A.rendering_classes == ["a"] and B.rendering_classes == ["b", "c"], "join: inputs' rendering classes unchanged")
    ctx.check([h for h in A.halos] == [hs[i] for i in pat[0]] and [h for h in B.halos] == [hs[i] for i in pat[1]], "join: inputs unchanged")
    ctx.check(J.geometry is A.geometry and J.rendering_center[0] is A.rendering_center[0] and J.rendering_center[1] is A.rendering_center[1], "join: settings of the first")
    same_arrays(ctx, J)
    ctx.observe("n", float(len(J.halos)))


@harness("up to three halos at any redshifts, queried at any redshift and at a halo's own: plane selection with indexes, counts before, at and behind, rendered mass")
def planes(ctx):
    n = ctx.choice("n", [0, 1, 3])
    plan = any_planes(ctx, n)
    if n == 3:
        plan[2] = (plan[0][0], True)
    c, lc, hs, r = setup(ctx, plan)
    q = ctx.real("query", 0.01, 1.99)
    ctx.assume(q != 0.5)
    if n and ctx.flag("at a halo"):
        q = plan[0][0]
        ctx.assume(q != 0.5)
    out, idx = r.halos_at_z(q)
    ctx.check(len(out) == len(idx), "plane: one index per halo")
    for h, i in zip(out, idx):
        ctx.check(r.halos[i] is h, "plane: index of the halo in the realization")
    subset(ctx, out, hs, "plane")
    tot = at = before = behind = 0
    for h in hs:
        same = h.z == q
        decide(ctx, h, out, same, same, "plane")
        if any(h is k for k in out):
            tot, at = tot + h.mass, at + 1
        elif bool(h.z < q):
            before += 1
        else:
            behind += 1
    ctx.check(r.number_of_halos_at_redshift(q) == at, "count at the redshift")
    ctx.check(r.number_of_halos_before_redshift(q) == before, "count before the redshift")
    ctx.check(r.number_of_halos_after_redshift(q) == behind, "count behind the redshift")
    ctx.close(r.mass_at_z_exact(q), tot, "mass at the redshift", atol=1e-3)


@harness("mass on the deflector plane: bound masses of subhalos plus masses of field halos, three populations", max_paths=100)
def lens_plane_mass(ctx):
    c, lc, hs, r = setup(ctx, ctx.choice("halos", [[(0.5, True), (0.5, False), (0.7, False)], [(0.5, True), (0.5, True)], [(0.7, False)]]))
    want = sum([(h._bound if h.is_subhalo else h.mass) for h in hs if h.z == 0.5], 0.0)
    ctx.close(r.mass_at_z_exact(0.5), want, "mass on the deflector plane", atol=1e-3)


@harness("up to three halos on two planes, window of any radius around any point or none: restriction to a plane keeps exactly the halos inside, with their indexes", max_paths=600)
def at_plane(ctx):
    M = ctx.load("pyHalo.single_realization")
    c, lc, hs, r = setup(ctx, ctx.choice("halos", [[(0.7, False), (0.5, True), (0.7, False)], [(0.5, False)], [(0.7, False), (0.7, True)]]))
    snap = snapshot(hs)
    z = 0.7
    sheets = ctx.flag("sheet flag")
    if ctx.flag("window"):
        ax, ay, R = ctx.real("ax", -20, 20), ctx.real("ay", -20, 20), ctx.real("R", 0.001, 20)
        f, idx = M.realization_at_z(r, z, ax, ay, R, mass_sheet_correction=sheets)
        must = lambda h: (h.x - ax) ** 2 + (h.y - ay) ** 2 < R ** 2
        may = lambda h: (h.x - ax) ** 2 + (h.y - ay) ** 2 <= R ** 2
    else:
        f, idx = M.realization_at_z(r, z, mass_sheet_correction=sheets)
        must = may = lambda h: True
    subset(ctx, f.halos, hs, "plane window")
    ctx.check(len(idx) == len(f.halos) and all(r.halos[i] is h for i, h in zip(idx, f.halos)), "plane window: indexes of the kept halos")
    for h in hs:
        if h.z == z:
            decide(ctx, h, f.halos, must(h), may(h), "plane window")
        else:
            ctx.check(not any(h is k for k in f.halos), "plane window: other planes removed")
    same_arrays(ctx, f)
    inherits(ctx, f, r, "plane window", sheets=False)
    ctx.check(f.apply_mass_sheet_correction == sheets, "plane window: requested sheet setting")
    unchanged(ctx, r.halos, snap, "input unchanged")


@harness("stored arrays, unique redshifts, subhalo and field-halo lists and comoving coordinates of up to three halos at any positions and redshifts")
def arrays(ctx):
    n = ctx.choice("n", [0, 1, 3])
    plan = any_planes(ctx, n)
    if n == 3:
        plan[2] = (plan[0][0], True)
    c, lc, hs, r = setup(ctx, plan)
    same_arrays(ctx, r)
    u = list(r.unique_redshifts)
    for a, b in zip(u, u[1:]):
        ctx.lt(a, b, "unique redshifts increase strictly")
    for h in hs:
        ctx.check(any(ctx.same(h.z, v) for v in u), "unique redshifts cover every halo")
    ctx.check(len(u) <= n, "no invented redshift")
    for v in u:
        ctx.check(any(ctx.same(h.z, v) for h in hs), "no invented redshift")
    s, f = r.subhalos, r.field_halos
    ctx.check([id(h) for h in s] == [id(h) for h in hs if h.is_subhalo], "subhalo list")
    ctx.check([id(h) for h in f] == [id(h) for h in hs if not h.is_subhalo], "field halo list")
    x, y, lm, z = r.halo_comoving_coordinates()
    for i, h in enumerate(hs):
        d = c.D_C_z(h.z)
        ctx.close(x[i], h.x * d, "comoving x", atol=1e-9)
        ctx.close(y[i], h.y * d, "comoving y", atol=1e-9)
        ctx.close(lm[i], ctx.log10(h.mass), "log mass")
        ctx.close(z[i], h.z, "redshift")


@harness("two realizations compare equal exactly when they contain the same halos (by tag): six pairs of halo sets, any pairwise different tags", max_paths=300)
def equality(ctx):
    pat = ctx.choice("halos", [([0, 1], [1, 0]), ([0, 1], [0]), ([0], [0, 1]), ([0], [1]), ([], [0]), ([0], []), ([], [])])
    tags = [ctx.real("tag%d" % i, 0, 1) for i in range(2)]
    ctx.assume(tags[0] != tags[1])
    c, lc, hs, r = setup(ctx, [(0.5, False), (0.5, True)], tags)
    A, B = (realization(ctx, [hs[i] for i in p], lc, ray(ctx, "cx"), ray(ctx, "cy")) for p in pat)
    ctx.check(bool(A == B) == (sorted(pat[0]) == sorted(pat[1])), "equal exactly when the halos are the same")
