"""P30 imported subhalo catalogues are filtered and projected faithfully"""
from symx.api import registry
from harness import world, halos, fakes
import math
import numpy as np
HARNESSES, harness = registry()
G = "pyHalo.Halos.galacticus_util.galacticus_filter"
U = "pyHalo.Halos.galacticus_util.galacticus_util"
E = "pyHalo.PresetModels.external"


def util(ctx, renamed):
    """the catalogue's names of the quantities, or the user's own"""
    C = ctx.get(U, "GalacticusUtil")
    if not renamed:
        return C()
    return type("MyUtil", (C,), {n: "my_" + getattr(C, n) for n in ("PARAM_X", "PARAM_Y", "PARAM_Z", "PARAM_ISOLATED", "PARAM_RADIUS_VIRIAL", "PARAM_TREE_INDEX", "PARAM_TREE_ORDER", "PARAM_NODE_ID", "PARAM_MASS_BOUND", "PARAM_MASS_INFALL")})()


class Turn(object):
    """contract of scipy's Rotation for an orthogonal matrix built from extrinsic Euler angles"""

    def __init__(self, m):
        self.m = m

    @classmethod
    def of(cls, ctx):
        class R(Turn):
            @classmethod
            def from_euler(k, seq, angles, degrees=False):
                if np.ndim(angles) == 0:
                    angles = [angles]
                if degrees:
                    angles = [a * math.pi / 180 for a in angles]
                assert len(seq) == len(angles) and (seq.islower() or seq.isupper())
                m = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
                for ax, a in zip(seq.lower(), angles):
                    c, s = ctx.cos(a), ctx.sin(a)
                    r = {"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax]
                    m = mul(r, m) if seq.islower() else mul(m, r)
                return k(m)
        return R

    def apply(self, v, inverse=False):
        m = [list(c) for c in zip(*self.m)] if inverse else self.m
        one = lambda w: [m[i][0] * w[0] + m[i][1] * w[1] + m[i][2] * w[2] for i in range(3)]
        return np.array(one(v)) if np.ndim(v) == 1 else np.array([one(w) for w in v])

    def as_matrix(self):
        return np.array(self.m)

    def inv(self):
        return type(self)([list(c) for c in zip(*self.m)])


def mul(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]


def rotation(ctx):
    mod = ctx.load(E)
    if ctx.symbolic and hasattr(mod, "Rotation"):
        ctx.patch(mod, "Rotation", Turn.of(ctx))


@harness("node attributes free; catalogue names the default ones or the user's; range limits free; two trees in either order")
def filters(ctx):
    u = util(ctx, ctx.flag("own names"))
    F = lambda n: ctx.get(G, "nodedata_" + n)
    trees = ctx.choice("trees", [(7, 7, 7, 3, 3), (1, 1, 2, 2, 2)])
    order = [0 if t == trees[0] else 1 for t in trees]
    iso = [0, 1, 0, 1, 0] if trees[0] == 7 else [1, 0, 0, 0, 1]
    iso = iso if sum(iso[i] for i in range(5) if order[i] == 0) == 1 else [0, 1, 0, 0, 1]
    m = ctx.reals("m", 5, 1, 100)
    lo, hi = ctx.real("lo", 1, 50), ctx.real("hi", 50, 100)
    for x in m[:2]:
        ctx.assume(x != lo)
        ctx.assume(x != hi)
    mass = [m[0], m[1], 20.0, 20.0, 20.0]
    for x in (lo, hi):
        ctx.assume(x != 20.0)
    nd = {u.PARAM_TREE_INDEX: np.array(trees), u.PARAM_TREE_ORDER: np.array(order), u.PARAM_ISOLATED: np.array(iso), u.PARAM_MASS_BOUND: np.array(mass), u.PARAM_NODE_ID: np.array([4, 9, 2, 0, 7])}
    for t in sorted(set(trees)) + [55]:
        ctx.check([bool(x) for x in F("filter_tree")(nd, t, u)] == [x == t for x in trees], "exactly the nodes of the tree")
    ctx.check([bool(x) for x in F("filter_subhalos")(nd, u)] == [x == 0 for x in iso], "exactly the subhalos")
    ctx.check([bool(x) for x in F("filter_halos")(nd, u)] == [x == 1 for x in iso], "exactly the hosts")
    got = F("filter_range")(nd, (lo, hi), u.PARAM_MASS_BOUND, u)
    for g, x in zip(got, mass):
        ctx.check(bool(g) == (bool(x > lo) and bool(x < hi)), "exactly the nodes within the range")
    for which in [(1, 0, 0, 1, 1), (0, 0, 0, 0, 0), (1, 1, 1, 1, 1)]:
        sub = F("apply_filter")(nd, np.array(which, dtype=bool), u)
        ctx.check(set(sub) == set(nd), "all attributes are kept")
        for k in nd:
            want = [nd[k][i] for i in range(5) if which[i]]
            ctx.check(len(sub[k]) == len(want), "kept nodes")
            for a, b in zip(sub[k], want):
                ctx.close(a, b, "attributes stay with their node", rtol=1e-12)
    for j, i in enumerate((4, 9, 2, 0, 7)):
        one = F("select_subhalo")(nd, i, u)
        ctx.check(set(one) == set(nd), "all attributes of the selected node")
        for k in nd:
            ctx.close(one[k], nd[k][j], "attributes of the selected node", rtol=1e-12)


@harness("positions of two nodes and the virial radii of two hosts free (0.01 to 1 Mpc); catalogue names the default ones or the user's", budget=120)
def virialized(ctx):
    u = util(ctx, ctx.flag("own names"))
    a, b = ctx.reals("a", 3, -1, 1), ctx.reals("b", 3, -1, 1)
    rv = ctx.reals("rv", 2, 0.01, 1)
    shape = ctx.choice("order", [((0, 0, 1, 1), (0, 1, 1, 0)), ((0, 0, 1, 1), (1, 0, 0, 1))])
    order, iso = shape
    pos = [None] * 4
    subs = [i for i in range(4) if not iso[i]]
    for i, p in zip(subs, (a, b)):
        pos[i] = p
    pos = [p or [0.0, 0.0, 0.0] for p in pos]
    for i in subs:
        p, r = pos[i], rv[order[i]]
        ctx.assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] != r * r)
    own = [rv[order[i]] if iso[i] else 0.001 * (i + 1) for i in range(4)]
    nd = {u.PARAM_TREE_ORDER: np.array(order), u.PARAM_TREE_INDEX: np.array([5 if o == 0 else 2 for o in order]), u.PARAM_ISOLATED: np.array(iso), u.PARAM_RADIUS_VIRIAL: np.array(own)}
    for k, n in enumerate((u.PARAM_X, u.PARAM_Y, u.PARAM_Z)):
        nd[n] = np.array([p[k] for p in pos])
    got = ctx.get(G, "nodedata_filter_virialized")(nd, u)
    for i in range(4):
        p, r = pos[i], rv[order[i]]
        ctx.check(bool(got[i]) == bool(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] < r * r), "inside the virial radius of the node's own host")


PLANES = [(0.0, 0.0, 1.0), (0.0, -2.0, 0.0), (0.6, 0.0, 0.8), (1.0, 2.0, -2.0)]


@harness("position free, four planes given by normals of any length; maximum radius free", prove_ms=10000)
def projected_radius(ctx):
    n = ctx.choice("normal", PLANES)
    r = ctx.reals("r", 3, -3, 3)
    q = sum(x * x for x in n)
    rn = sum(x * y for x, y in zip(r, n))
    want = r[0] * r[0] + r[1] * r[1] + r[2] * r[2] - rn * rn / q
    ctx.assume(want > 1e-6)
    P = ctx.get(G, "project_r2d")
    got = P(np.array([r[0], 0.0]), np.array([r[1], 3.0]), np.array([r[2], 4.0]), np.array(n))
    ctx.close(got[0] * got[0], want, "projected radius", rtol=1e-9)
    other = 25.0 - (3 * n[1] + 4 * n[2]) ** 2 / q
    ctx.close(got[1] * got[1], other, "projected radius", rtol=1e-9, atol=1e-9)
    u = util(ctx, False)
    R = ctx.real("max", 0.1, 10)
    ctx.assume(R * R - want > 1e-6 * R * R) if ctx.flag("inside") else ctx.assume(want - R * R > 1e-6 * want)
    keep = ctx.get(G, "nodedata_filter_r2d")({u.PARAM_X: np.array([r[0]]), u.PARAM_Y: np.array([r[1]]), u.PARAM_Z: np.array([r[2]])}, R, np.array(n), u)
    ctx.check(bool(keep[0]) == bool(want < R * R), "exactly the nodes inside the projected aperture")


class LOS(object):
    """the line-of-sight preset: records what it is asked for"""

    def __init__(self, ctx):
        self.ctx, self.kw, self.name = ctx, [], None
        self.c, self.lc = halos.plain_lens(ctx)
        self.R = fakes.realization(ctx, [fakes.FakeHalo(77.5, 1e7, 0.5, 0.5, 0.3)], self.lc)
        mod = ctx.load("pyHalo.preset_models")

        def named(name, *a, **k):
            self.name = name

            def preset(*args, **kw):
                kw.update(zip(("z_lens", "z_source"), args))
                self.kw.append(kw)
                return self.R
            return preset
        ctx.patch(mod, "preset_model_from_name", named)


def catalogue(ctx, u, first=(0.0, 0.004, 0.001)):
    """two trees; the second has the nodes of interest, with free positions and masses"""
    nd = {k: [] for k in (u.PARAM_X, u.PARAM_Y, u.PARAM_Z, u.PARAM_TNFW_RHO_S, u.PARAM_TNFW_RADIUS_TRUNCATION, u.PARAM_RADIUS_VIRIAL, u.PARAM_RADIUS_SCALE, u.PARAM_MASS_BOUND, u.PARAM_MASS_INFALL, u.PARAM_ISOLATED, u.PARAM_TREE_ORDER,
                          u.PARAM_TREE_INDEX, u.PARAM_NODE_ID, u.PARAM_Z_LAST_ISOLATED, u.PARAM_CONCENTRATION)}
    rows = []

    def add(x, rv, mb, mi, iso, order, tree):
        i = len(rows)
        rows.append((x, rv, mb, mi, iso, order, tree))
        vals = list(x) + [1e12 * (i + 1), 0.0035 + 0.0005 * i, rv, 0.001 * (i + 2), mb, mi, iso, order, tree, 30 - 3 * i, 1.0 + 0.25 * i, 8.0 + i]
        for k, v in zip(list(nd), vals):
            nd[k].append(v)
    add(list(first), 0.01, 3e7, 5e7, 0, 0, 6)
    add([0.0, 0.0, 0.0], 0.5, 1e13, 1e13, 1, 0, 6)
    return nd, rows, add


def imported(ctx, got, nd, u, i, z):
    T = "pyHalo.Halos.HaloModels.TNFWFromParams"
    K = ctx.get(T, "TNFWFromParams")
    ctx.check(isinstance(got, K) and got.is_subhalo, "imported subhalo")
    ctx.close(got.z, z, "at the lens redshift", rtol=1e-12)
    ctx.close(got.mass, nd[u.PARAM_MASS_INFALL][i], "infall mass", rtol=1e-9)
    p = got.params_physical
    ctx.close(p[K.KEY_RHO_S], 4 * nd[u.PARAM_TNFW_RHO_S][i] * 1e-9, "density normalisation", rtol=1e-9)
    ctx.close(p[K.KEY_RS], 1000 * nd[u.PARAM_RADIUS_SCALE][i], "scale radius", rtol=1e-9)
    ctx.close(p[K.KEY_RT], 1000 * nd[u.PARAM_TNFW_RADIUS_TRUNCATION][i], "truncation radius", rtol=1e-9)
    ctx.close(p[K.KEY_RV], 1000 * nd[u.PARAM_RADIUS_SCALE][i] * nd[u.PARAM_CONCENTRATION][i], "virial radius", rtol=1e-9)
    ctx.close(got.c, nd[u.PARAM_CONCENTRATION][i], "concentration", rtol=1e-9)
    ctx.close(got.z_infall, nd[u.PARAM_Z_LAST_ISOLATED][i], "infall redshift", rtol=1e-9)
    ctx.check(got.id == nd[u.PARAM_NODE_ID][i], "identifier of the node")


def arrays(nd):
    return {k: np.array(v) for k, v in nd.items()}


ANGLES = [(0.0, 0.0), (math.pi / 2, 0.0), (math.pi / 2, math.pi / 2), (2 * math.atan(0.5), 2 * math.atan(1.0 / 3)), (math.pi, 4.0)]


DIRECTIONS = [(0.6, 0.0, 0.8), (0.0, 1.0, 0.0), (-0.48, 0.6, 0.64)]


@harness("distance (up to 0.1 Mpc, three directions), bound and infall mass of one node and the mass range, aperture and host radius free; three projections; bound or infall mass range; a second tree, a host and a fixed node around it", budget=150, max_paths=900, prove_ms=10000)
def selection(ctx):
    los = LOS(ctx)
    rotation(ctx)
    u = ctx.get(U, "GalacticusUtil")()
    theta, phi, d, bound = ctx.choice("projection", [ANGLES[3] + (DIRECTIONS[0], True), ANGLES[1] + (DIRECTIONS[2], False), ANGLES[2] + (DIRECTIONS[1], True)])
    t = ctx.real("t", 0.001, 0.1)
    x = [t * q for q in d]
    mb, mi = ctx.real("mb", 6, 9), ctx.real("mi", 6, 9)
    lo, hi = ctx.real("lo", 6, 6.9), ctx.real("hi", 7.6, 9)
    cone = ctx.real("cone", 1, 20)
    rv = ctx.real("rv", 0.01, 0.06)
    nd, rows, add = catalogue(ctx, u, [0.0, 0.001, 0.0005])
    add(x, 0.02, 10 ** mb, 10 ** mi, 0, 1, 2)
    add([0.0, 0.0, 0.0], rv, 10 ** 7.25, 10 ** 7.25, 1, 1, 2)
    add([0.0, 0.0, 0.0], 0.02, 10 ** 7.0, 10 ** 7.0, 0, 1, 2)
    m = mb if bound else mi
    n = (math.sin(theta) * math.cos(phi), math.sin(theta) * math.sin(phi), math.cos(theta))
    k = los.c.kpc_proper_per_asec(0.5) * 1e-3
    far = math.sqrt(1 - sum(p * q for p, q in zip(n, d)) ** 2)
    edge = cone / 2 * k
    inside = True
    for low, high in ((lo, m), (m, hi), (t, rv), (far * t, edge)):
        if bool(low < high):
            ctx.assume(high - low > 1e-6)
        else:
            ctx.assume(low - high > 1e-6)
            inside = False
    res = ctx.get(E, "DMFromGalacticus")(arrays(nd), 1.5, cone, 2, lo, hi, mass_range_is_bound=bound, proj_angle_theta=theta, proj_angle_phi=phi)
    got = [h for h in res.halos if h.unique_tag != 77.5]
    ctx.check(len(res.halos) == len(got) + 1, "line-of-sight halos are kept")
    ids = [h.id for h in got]
    want = ([24] if inside else []) + [18]
    ctx.check(ids == want, "exactly the requested nodes of the tree")
    for h in got:
        imported(ctx, h, nd, u, {24: 2, 18: 4}[h.id], 0.5)


@harness("two coordinates (within 1 Mpc) of one of two nodes free, projection along five directions; user-defined filter and table of parameters; two presets", budget=120, prove_ms=15000)
def projection(ctx):
    los = LOS(ctx)
    rotation(ctx)
    theta, phi, own, preset, fixed = ctx.choice("projection", [a + (i % 2 == 0, "ULDM" if i % 3 == 0 else "CDM", i % 3) for i, a in enumerate(ANGLES)])
    u = ctx.get(U, "GalacticusUtil")()
    a, b = ctx.reals("a", 2, -1, 1), [0.375, -0.25, 0.625]
    a.insert(fixed, -0.25)
    nd, rows, add = catalogue(ctx, u)
    add(a, 0.02, 1e7, 2e7, 0, 1, 2)
    add([0.0, 0.0, 0.0], 5.0, 1e13, 1e13, 1, 1, 2)
    add(b, 0.02, 3e7, 4e7, 0, 1, 2)
    more = {}
    K = ctx.get("pyHalo.Halos.HaloModels.TNFWFromParams", "TNFWFromParams")
    if own:
        more["nodedata_filter"] = lambda d, g: np.array([False, False, True, False, True])
        more["galacticus_tabulate_tnfw_params"] = lambda d, g: {K.KEY_RHO_S: d[u.PARAM_MASS_BOUND] * 0.5, K.KEY_RS: d[u.PARAM_MASS_BOUND] * 1e-7, K.KEY_RT: d[u.PARAM_MASS_BOUND] * 3e-7, K.KEY_RV: d[u.PARAM_MASS_BOUND] * 5e-7, K.KEY_Z_INFALL: d[u.PARAM_Z_LAST_ISOLATED], K.KEY_ID: d[u.PARAM_NODE_ID]}
    res = ctx.get(E, "DMFromGalacticus")(arrays(nd), 1.5, 4000.0, 2, 6.0, 9.0, proj_angle_theta=theta, proj_angle_phi=phi, preset_model_los=preset, LOS_normalization=0.75, **more)
    ctx.check(los.name == preset and len(los.kw) == 1, "line-of-sight preset")
    kw = los.kw[0]
    ctx.check(kw["sigma_sub"] == 0 and kw.get("log10_dNdA") is None, "the preset adds no subhalos")
    ctx.check(kw.get("log10_sigma_sub", 0 if preset == "ULDM" else None) is None, "the preset adds no subhalos")
    ctx.check(kw["LOS_normalization"] == 0.75 and kw["z_source"] == 1.5 and kw["z_lens"] == 0.5 and kw["cone_opening_angle_arcsec"] == 4000.0, "settings of the line-of-sight preset")
    got = [h for h in res.halos if h.unique_tag != 77.5]
    both = [h.id for h in got] == [24, 18]
    ctx.check(both, "both nodes")
    if not both:
        return
    n = (math.sin(theta) * math.cos(phi), math.sin(theta) * math.sin(phi), math.cos(theta))
    k = los.c.kpc_proper_per_asec(0.5) * 1e-3
    dot = lambda p, q: p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
    for h, x in zip(got, (a, b)):
        ctx.close(k * k * (h.x * h.x + h.y * h.y) + dot(x, n) * dot(x, n), dot(x, x), "projection keeps the distance", rtol=1e-9, atol=1e-12)
        ctx.close(h.r3d * h.r3d, 1e6 * dot(x, x), "three-dimensional distance to the host", rtol=1e-9, atol=1e-9)
    ctx.close(k * k * (got[0].x * got[1].x + got[0].y * got[1].y), dot(a, b) - dot(a, n) * dot(b, n), "angles in the projected plane", rtol=1e-9, atol=1e-9)
    for h, i in zip(got, (2, 4)):
        if own:
            p = h.params_physical
            m = nd[u.PARAM_MASS_BOUND][i]
            ctx.close(h.mass, nd[u.PARAM_MASS_INFALL][i], "infall mass", rtol=1e-9)
            ctx.close(h.z_infall, nd[u.PARAM_Z_LAST_ISOLATED][i], "infall redshift", rtol=1e-9)
            for key, f in ((K.KEY_RHO_S, 0.5), (K.KEY_RS, 1e-7), (K.KEY_RT, 3e-7), (K.KEY_RV, 5e-7)):
                ctx.close(p[key], f * m, "parameters of the user's table", rtol=1e-9)
        else:
            imported(ctx, h, nd, u, i, 0.5)


@harness("two emulated subhalos: masses 1e6 to 1e10, concentrations 2 to 60, infall redshifts, truncation radii and positions free; alone or with a line-of-sight preset", budget=120, prove_ms=12000)
def emulator(ctx):
    cosmo = world.Cosmology(ctx, free=False)
    ctx.patch(ctx.load("pyHalo.pyhalo"), "Cosmology", lambda *a, **k: cosmo)
    ctx.patch(ctx.get("pyHalo.Halos.lens_cosmo", "LensCosmo"), "setup_infall_model", lambda *a, **k: None)
    zl, zs = ctx.choice("lens", [(0.5, 1.5), (0.3, 2.0)])
    m = [10 ** q for q in ctx.reals("m", 2, 6, 10)]
    c = ctx.reals("c", 2, 2, 60)
    z = ctx.reals("z", 2, 1, 8)
    rt = ctx.reals("rt", 2, 1e-4, 1e-2)
    x, y = ctx.reals("x", 2, -0.02, 0.02), ctx.reals("y", 2, -0.02, 0.02)
    data = lambda: tuple(np.array(v) for v in (m, c, [0.5 * q for q in m], z, rt, x, y))
    joint = ctx.flag("with line-of-sight halos")
    if joint:
        los = LOS(ctx)
        res = ctx.get(E, "JointLOSWithEmulator")(zl, zs, data, 7.0, "WDM", log_mc=7.5, sigma_sub=0.0)
        ctx.check(los.name == "WDM" and los.kw == [{"z_lens": zl, "z_source": zs, "log_mc": 7.5, "sigma_sub": 0.0}], "line-of-sight preset and its settings")
        ctx.check(sum(h.unique_tag == 77.5 for h in res.halos) == 1, "line-of-sight halos are kept")
        hs = [h for h in res.halos if h.unique_tag != 77.5]
    else:
        res = ctx.get(E, "DMSubhalosFromEmulator")(zl, zs, data, 7.0)
        hs = list(res.halos)
        ctx.close(res.geometry.cone_opening_angle, 7.0, "opening angle", rtol=1e-12)
        ctx.check(res.lens_cosmo.z_lens == zl and res.lens_cosmo.z_source == zs, "lens and source redshift")
    ctx.check(len(hs) == 2, "one halo per emulated subhalo")
    K = ctx.get("pyHalo.Halos.HaloModels.TNFWFromParams", "TNFWFromParams")
    k = cosmo.kpc_proper_per_asec(zl)
    for i, h in enumerate(hs):
        ctx.check(isinstance(h, K) and h.is_subhalo, "truncated subhalo")
        ctx.close(h.z, zl, "at the lens redshift", rtol=1e-12)
        for got, want, label in ((h.mass, m[i], "infall mass"), (h.c, c[i], "concentration"), (h.z_infall, z[i], "infall redshift"), (h.params_physical[K.KEY_RT], 1000 * rt[i], "truncation radius")):
            ctx.close(got, want, label, rtol=1e-9)
        ctx.close(h.x * k, 1000 * x[i], "position", rtol=1e-9, atol=1e-12)
        ctx.close(h.y * k, 1000 * y[i], "position", rtol=1e-9, atol=1e-12)
        lc = h.lens_cosmo
        rho, rs, rv = lc.NFW_params_physical(m[i], c[i], zl)
        ctx.close(h.params_physical[K.KEY_RS], rs, "scale radius of an NFW halo of this mass and concentration", rtol=1e-6)
        ctx.close(h.params_physical[K.KEY_RV], rv, "virial radius of an NFW halo of this mass", rtol=1e-6)
        ctx.close(h.params_physical[K.KEY_RHO_S], rho, "density of an NFW halo of this mass and concentration", rtol=1e-6)


class Set(object):
    """a stored data set"""

    def __init__(self, v):
        self.v = np.array(v)
        self.shape, self.dtype = self.v.shape, self.v.dtype

    def read_direct(self, out):
        for i in range(len(self.v)):
            out[i] = self.v[i]

    def __getitem__(self, k):
        return self.v[k]

    def __array__(self, *a, **k):
        return np.array(self.v)

    def __len__(self):
        return len(self.v)


@harness("node values free; outputs with one to three trees of zero to three nodes, tree numbers in any order, one or several outputs; all, some or one quantity read", budget=120)
def reading(ctx):
    mod = ctx.load(U)
    ctx.patch(mod, "h5py", type("h5", (), {"Dataset": Set, "Group": dict, "File": dict}))
    u = ctx.get(U, "GalacticusUtil")()
    sizes, numbers = ctx.choice("trees", [((2, 3), (4, 1)), ((3,), (8,)), ((1, 2, 1), (3, 2, 1)), ((2, 0, 1), (5, 6, 7)), ((1, 2, 0), (1, 2, 3))])
    n = sum(sizes)
    v, w = ctx.reals("v", n, -5, 5), ctx.reals("w", n, 0, 9)
    starts = [sum(sizes[:i]) for i in range(len(sizes))]
    out = lambda s: {"nodeData": {"quantity": Set([x + s for x in v]), "other": Set([x + s for x in w]), "summary": Set([1.0] * (n + 2)), "group": {}}, "mergerTreeCount": Set(list(sizes)), "mergerTreeIndex": Set(list(numbers)), "mergerTreeStartIndex": Set(starts)}
    f = {"Outputs": {"Output3": out(0.5), "Output12": out(0.0), "Output7": out(1.0), "Notes": {}, "OutputX": {}}}
    which = ctx.choice("output", [None, 3])
    want = ctx.choice("quantities", [None, "quantity", ["other", "missing"]])
    got = u.hdf5_read_galacticus_nodedata(f, output_index=which, params_to_read=want)
    s = 0.0 if which is None else 0.5
    names = {"quantity", "other"} if want is None else ({want} if isinstance(want, str) else {"other"})
    ctx.check(set(got) == names | {u.PARAM_TREE_INDEX, u.PARAM_TREE_ORDER, u.PARAM_NODE_ID}, "the requested quantities of every node")
    for k, vals in (("quantity", v), ("other", w)):
        if k in got:
            ctx.check(len(got[k]) == n, "one value per node")
            for a, b in zip(got[k], vals):
                ctx.close(a, b + s, "values of the requested (by default the last) output", rtol=1e-12, atol=1e-12)
    order = [i for i, m in enumerate(sizes) for _ in range(m)]
    ctx.check([int(x) for x in got[u.PARAM_TREE_ORDER]] == order, "position of each node's tree")
    ctx.check([int(x) for x in got[u.PARAM_TREE_INDEX]] == [numbers[i] for i in order], "number of each node's tree")
    ctx.check([int(x) for x in got[u.PARAM_NODE_ID]] == list(range(n)), "identifiers")
