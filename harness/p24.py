"""P24 operations that convert or add objects keep the identity of halos and touch no others"""
from symx.api import registry
from harness import world, halos, fakes
from harness.p25 import M3
import numpy as np
HARNESSES, harness = registry()
X = "pyHalo.realization_extensions"
TNFW = "lenstronomy.LensModel.Profiles.tnfw"


class Geometry(object):
    """rendering volume: kpc per arcsec, cone and rendering scale"""
    cone_opening_angle = 6.0
    volume_type = "DOUBLE_CONE"

    def __init__(self, cosmo):
        self._cosmo = cosmo

    def kpc_per_arcsec(self, z):
        return self._cosmo.kpc_proper_per_asec(z)

    def rendering_scale(self, z):
        return 1.0 if z <= 0.5 else 0.5

    def volume_element_comoving(self, z, dz, radius=None):
        return 1000.0 * dz

    def angle_to_physicalradius(self, theta, z):
        return 0.5 * theta * self._cosmo.kpc_proper_per_asec(z) * 1e-3


POP = {"subhalo, field halo, point mass": ["TNFW sub", "TNFW field", "PT_MASS field"], "field halo, subhalo": ["TNFW field", "TNFW sub"], "point mass, subhalo, subhalo": ["PT_MASS field", "TNFW sub", "TNFW sub"]}
ZI = (1.5, 3.0, 11.0)
KEEP = ("mass", "x", "y", "z", "r3d", "is_subhalo", "unique_tag")


def population(ctx, lc, kinds, positions=False, free=9):
    """halos with concentrations drawn anew on every evaluation"""
    hs, conc, trunc = [], halos.Conc(ctx, noisy=True), halos.Trunc(ctx, noisy=True)
    for i, k in enumerate(kinds):
        sub = k.endswith("sub")
        m = 10.0 ** (ctx.real("w%d" % i, 0, 0.99) + (6 + i)) if i < free else 2.0 * 10.0 ** (6 + i)
        x, y = (ctx.real("x%d" % i, -3, 3), ctx.real("y%d" % i, -3, 3)) if positions else (0.1 * i, -0.2)
        h = halos.make(ctx, k.split()[0], lc, x, y, 0.5 if sub else (0.25, 1.25)[i % 2], m, sub, tag=2.125 * (i + 1), conc=conc, trunc=trunc)
        if sub:
            h.set_infall_redshift(ZI[i])
            h.set_bound_mass(0.25 * m)
        hs.append(h)
    return hs, [{a: getattr(h, a) for a in KEEP} for h in hs]


def setting(ctx, kinds, shifted=None, positions=False, free=9):
    c, lc = halos.plain_lens(ctx)
    ctx.patch(ctx.get(TNFW, "TNFW"), "mass_3d", M3(ctx))
    T = ctx.get(halos.BASE + "TNFW", "TNFWFieldHalo")
    ctx.patch(T, "log_derivative_inverse", lambda self, *a, **k: 0.3)
    hs, snap = population(ctx, lc, kinds, positions, free)
    shifted = ctx.flag("shifted before") if shifted is None else shifted
    R = fakes.realization(ctx, hs, lc, rx=0.5, ry=-0.25, classes=[object()], sheets=not shifted if positions else True,
                          geometry=Geometry(c), kw={"some": "argument"})
    if shifted:
        R = R.shift_background_to_source(fakes.Ray(lambda d: 0.0 * d), fakes.Ray(lambda d: 0.0 * d))
        snap = [{a: getattr(h, a) for a in KEEP} for h in hs]
    return c, lc, R, hs, snap, shifted, ctx.get(X, "RealizationExtensions")(R)


def retained(ctx, R, N, shifted, moves=None):
    """the new realization belongs to the same lens, volume and rendering state"""
    ctx.check(N.lens_cosmo is R.lens_cosmo and N.geometry is R.geometry, "same lens and rendering volume")
    ctx.check(N.apply_mass_sheet_correction == R.apply_mass_sheet_correction, "same choice of mass sheets")
    ctx.check(list(N.rendering_classes or []) == list(R.rendering_classes or []), "same rendering classes")
    ctx.check(N.rendering_center == R.rendering_center, "same rendering centre")
    fakes.same_arrays(ctx, N)
    if shifted is not None:
        p = [(h.x, h.y) for h in N.halos]
        S = N.shift_background_to_source(fakes.Ray(lambda d: 0.0 * d + 0.5), fakes.Ray(lambda d: 0.0 * d - 0.25))
        for h, (x, y) in zip(S.halos, p):
            move = not shifted and not h.fixed_position
            ctx.close(h.x, x + (0.5 if move else 0.0), "a realization is moved along the light ray once", atol=1e-12)
            ctx.close(h.y, y - (0.25 if move else 0.0), "a realization is moved along the light ray once", atol=1e-12)


def pairs(ctx, hs, N):
    """old halo -> new halo, by tag"""
    new = list(N.halos)
    ctx.check(len(new) == len(hs), "as many objects as before")
    out = []
    for h in hs:
        m = [n for n in new if n.unique_tag == h.unique_tag]
        ctx.check(len(m) == 1, "each object exactly once")
        out.append(m[0])
    return out


def identity(ctx, old, snap, new, conc=True):
    """a converted halo is the same object with another profile"""
    for a in KEEP:
        v, w = getattr(new, a), snap[a]
        if w is None or isinstance(w, bool):
            ctx.check(v is w or v == w, "converted halo keeps its " + a)
        else:
            ctx.check(v is not None, "converted halo keeps its " + a)
            ctx.close(v, w, "converted halo keeps its " + a, rtol=1e-12, atol=1e-14)
    if old.is_subhalo:
        ctx.close(new.bound_mass, old.bound_mass, "converted subhalo keeps its bound mass", rtol=1e-12)
        ctx.close(new.z_infall, old.z_infall, "converted subhalo keeps its infall redshift", rtol=1e-12)
    if conc:
        ctx.close(new.profile_args[0] if "SPL_CORE" in new.lenstronomy_ID else new.c, old.c, "converted halo keeps its concentration", rtol=1e-12)
    ctx.check(new.lens_cosmo is old.lens_cosmo, "converted halo keeps its lens")


def untouched(ctx, old, snap, args):
    for a in KEEP:
        ctx.check(getattr(old, a) is snap[a] or getattr(old, a) == snap[a], "the given halos are not changed")
    ctx.check(old.args_profile == args, "the given halos are not changed")


@harness("two or three subhalos, field halos and point masses of any mass and position, any threshold, every galaxy model; shifted before or not", prove_ms=8000)
def galaxies(ctx):
    pop = ctx.choice("population", [["TNFW sub", "TNFW field"], ["TNFW field", "TNFW sub", "TNFW sub"]])
    model = ctx.choice("galaxy model", ["GNFW", "SIS", "other"])
    c, lc, R, hs, snap, sh, ext = setting(ctx, pop, positions=True)
    args = [dict(h.args_profile) for h in hs]
    t = ctx.real("threshold", 1e5, 1e10)
    if model == "other":
        ctx.assume(t <= hs[0].mass)
        ctx.raises(lambda: ext.SIS_injection(t, "HERNQUIST"), Exception, label="unknown galaxy model is an error")
        return
    N = ext.SIS_injection(t, galaxy_model=model) if not (model == "GNFW" and sh) else ext.SIS_injection(t)
    for h, s, a, n in zip(hs, snap, args, pairs(ctx, hs, N)):
        if n is h:
            ctx.lt(h.mass, t, "every halo above the threshold becomes a galaxy")
        else:
            ctx.le(t, h.mass, "halos below the threshold stay as they are")
            ctx.check(n.lenstronomy_ID == (["PSEUDO_DPL"] if model == "GNFW" else ["SIS"]), "requested galaxy model")
            identity(ctx, h, s, n, conc=model == "GNFW")
            ctx.check(n.fixed_position == h.fixed_position, "a converted halo moves along the light ray as before")
        untouched(ctx, h, s, a)
    retained(ctx, R, N, sh)
    ctx.observe("n", len(N.halos))


PROFILES = {"GNFW": dict(gamma_inner=2.5, gamma_outer=3.5), "SPL_CORE": dict(log_slope_halo=2.75, x_core_halo=0.05), "TNFWC": dict(x_core_halo=0.05),
            "CC_COMPOSITE": dict(gamma_inner=2.5, scale_match_r=1.5, log_slope_match=-2.0), "black hole": dict(gamma_inner=-1.0, scale_match_r=1.5, log_slope_match=-2.0)}
MODELS = {"GNFW": ["PSEUDO_DPL"], "SPL_CORE": ["SPL_CORE"], "TNFWC": ["TNFWC"], "CC_COMPOSITE": ["CORE_COLLAPSED_HALO"], "black hole": ["CORE_COLLAPSED_HALO_BH"], "CNFW": ["CNFW"]}
CASES = [(p, i) for p in sorted(POP) for i in ([], [0], [1], [2], [0, 1], [1, 2], [2, 1]) if all(j < len(POP[p]) and not POP[p][j].startswith("PT") for j in i)]


@harness("populations with subhalos, field halos and point masses of any mass and position; any list of indexes of NFW halos; every collapsed profile; shifted before or not", prove_ms=8000)
def collapsed(ctx):
    pop, idx = ctx.choice("population and indexes", CASES)
    prof = ctx.choice("profile", sorted(PROFILES))
    c, lc, R, hs, snap, sh, ext = setting(ctx, POP[pop], positions=len(idx) == 2)
    args = [dict(h.args_profile) for h in hs]
    kw = dict(PROFILES[prof])
    N = ext.add_core_collapsed_halos(np.array(idx, dtype=int) if sh else list(idx), halo_profile="CC_COMPOSITE" if prof == "black hole" else prof, **kw)
    ctx.check(kw == PROFILES[prof], "profile arguments are not changed")
    for i, (h, s, a, n) in enumerate(zip(hs, snap, args, pairs(ctx, hs, N))):
        if i in idx:
            ctx.check(n is not h and n.lenstronomy_ID == MODELS[prof], "selected halos get the requested profile")
            identity(ctx, h, s, n)
            for k, v in kw.items():
                if k in ("gamma_inner", "gamma_outer", "log_slope_halo", "x_core_halo") and prof != "black hole":
                    ctx.check(n.args_profile[k] == v, "the profile has the requested parameters")
        else:
            ctx.check(n is h, "halos that are not selected are untouched")
        untouched(ctx, h, s, a)
    retained(ctx, R, N, sh)
    ctx.observe("n", len(N.halos))


@harness("as above; cored and cored truncated profiles with any core size", prove_ms=8000)
def cored(ctx):
    pop, idx = ctx.choice("population and indexes", CASES)
    prof = ctx.choice("profile", ["CNFW", "TNFWC", "default"])
    c, lc, R, hs, snap, sh, ext = setting(ctx, POP[pop], positions=len(idx) == 2)
    args = [dict(h.args_profile) for h in hs]
    beta = ctx.real("beta", 0.001, 2)
    kw = {} if prof == "default" else dict(core_density_profile=prof)
    N = ext.add_cored_halos(list(idx), beta, **kw)
    for i, (h, s, a, n) in enumerate(zip(hs, snap, args, pairs(ctx, hs, N))):
        if i in idx:
            ctx.check(n is not h and n.lenstronomy_ID == (["TNFWC"] if prof == "TNFWC" else ["CNFW"]), "selected halos get the requested profile")
            identity(ctx, h, s, n)
            ctx.close(n.args_profile["x_core_halo" if prof == "TNFWC" else "beta"], beta, "core size in units of the scale radius")
        else:
            ctx.check(n is h, "halos that are not selected are untouched")
        untouched(ctx, h, s, a)
    retained(ctx, R, N, sh)
    ctx.observe("n", len(N.halos))


@harness("lists of one or two truncated NFW halos of any mass and position, every self-interacting profile; a list drawn from a larger realization", prove_ms=8000)
def interacting(ctx):
    pop = ctx.choice("population", [["TNFW sub", "TNFW field"], ["TNFW field", "TNFW sub"], ["TNFW sub"]])
    prof = ctx.choice("profile", ["TNFWC", "CC_COMPOSITE", "evolving", "parametric"])
    c, lc, R, hs, snap, sh, ext = setting(ctx, pop, positions=True)
    args = [dict(h.args_profile) for h in hs]
    kw = {"TNFWC": dict(x_core_halo=0.05), "CC_COMPOSITE": dict(halo_profile="CC_COMPOSITE"), "evolving": dict(t_c=5.0, subhalo_evolution_scaling=2.0),
          "parametric": dict(t_c=5.0, subhalo_evolution_scaling=2.0, evolving_profile=False, x_core_halo=0.05)}[prof]
    part = hs[:1] if ctx.flag("part of the halos") else hs
    N = ext.toSIDM_halo_list(list(part), **kw)
    for h, s, a, n in zip(part, snap, args, pairs(ctx, part, N)):
        ctx.check(n is not h or prof in ("evolving", "parametric"), "halos are converted")
        if n is not h:
            ctx.check(n.lenstronomy_ID == (["CORE_COLLAPSED_HALO"] if prof == "CC_COMPOSITE" else ["TNFWC"]), "requested profile")
            identity(ctx, h, s, n)
        untouched(ctx, h, s, a)
    retained(ctx, R, N, sh)
    ctx.observe("n", len(N.halos))


class Seeds(object):
    """Sheth-Tormen mass function of the halos below the resolution: any masses"""

    def __init__(self, ctx, masses):
        self.ctx, self.masses, self.asked = ctx, masses, []

    def from_redshift(self, z, dz, geometry, kw, *a, **k):
        self.asked.append((z, dz, geometry, dict(kw)))
        n = len(self.asked) - 1

        class MF(object):
            @staticmethod
            def draw():
                return np.array(self.masses[n:n + 1])
        return MF()


@harness("a subhalo and a field halo of any mass and position; any mass ratio, occupied fraction, minimum and maximum mass; at most one unresolved halo per lens plane, of any mass; every random number", prove_ms=8000, max_paths=900)
def black_holes(ctx):
    case = ctx.choice("case", ["any fraction", "every halo", "no halo"])
    pop = ["TNFW sub", "TNFW field"] if case != "any fraction" else [ctx.choice("halo", ["TNFW sub", "TNFW field"])]
    c, lc, R, hs, snap, sh, ext = setting(ctx, pop, shifted=True, positions=len(pop) == 1, free=1)
    args = [dict(h.args_profile) for h in hs]
    unres = [10.0 ** (ctx.real("u", 0, 0.99) + 5), 5e5] if case != "any fraction" else []
    M = Seeds(ctx, unres)
    ctx.patch(ctx.load(X), "ShethTormen", M)
    f = ctx.real("fraction", 0, 1) if case == "any fraction" else {"every halo": 1.0, "no halo": 0.0}[case]
    ratio, lmin, lmax = ctx.choice("mass ratio, minimum and maximum", [(-0.5, 4.5, 6.5), (-0.5, 5.0, 7.25), (-2.0, 4.5, 5.25)])
    norm = ctx.real("line of sight normalisation", 0, 2)
    n0 = len(ctx.rng.log)
    N = ext.add_black_holes(ratio, f, 5.0, lmin, 6.0, lmax, norm)
    seeds = list(N.halos)
    u = [e[2] for e in ctx.rng.log[n0:] if e[0] == "uniform" and tuple(e[1]) == (0, 1)]
    cut, top = 10 ** lmin, 10 ** lmax
    for b in seeds:
        ctx.check(b.lenstronomy_ID == ["POINT_MASS"] and not b.fixed_position and not b.is_subhalo, "black holes are point masses that move with their halos")
        ctx.le(cut, b.mass * (1 + 1e-9), "no black hole below the minimum mass")
        ctx.le(b.mass, top * (1 + 1e-9), "no black hole above the maximum mass")
    left = list(seeds)
    for h in hs:
        m = h.mass * 10 ** ratio
        m = top if bool(m > top) else m
        near = [b for b in left if b.z == h.z and bool(ctx.abs(b.mass - m) <= 1e-9 * m)]
        if bool(m > cut) and case != "no halo":
            if case == "any fraction":
                if near:
                    ctx.check(any(bool(v <= f) for v in u), "halos are occupied with the given probability")
                else:
                    ctx.check(any(bool(v >= f) for v in u), "halos are occupied with the given probability")
            else:
                ctx.check(bool(near), "every occupied halo above the minimum mass has a black hole")
            if near:
                b = near[0]
                left = [o for o in left if o is not b]
                rs = h.nfw_params[1] / c.kpc_proper_per_asec(h.z)
                ctx.le((b.x - h.x) ** 2 + (b.y - h.y) ** 2, rs ** 2 * (1 + 1e-9), "black hole within the scale radius of its halo")
    if case == "no halo":
        for v in u:
            ctx.assume(v > 0)
    # halos below the resolution of the realization
    zs = sorted(set(h.z for h in hs))
    ctx.check([q[0] for q in M.asked] == zs, "unresolved halos on every lens plane")
    for j, (z, dz, g, kw) in enumerate(M.asked):
        ctx.close(dz, (zs + [2.0])[j + 1] - z, "unresolved halos between each plane and the next", atol=1e-12)
        ctx.check(kw["log_mlow"] == 5.0 and kw["log_mhigh"] == 6.0, "unresolved halos below the resolution of the realization")
        ctx.close(kw["LOS_normalization"], f * norm, "occupied fraction of the line-of-sight mass function", atol=1e-14)
        if unres:
            m = unres[j] * 10 ** ratio
            m = top if bool(m > top) else m
            near = [b for b in left if b.z == z and bool(ctx.abs(b.mass - m) <= 1e-9 * m)]
            if bool(m > cut):
                ctx.check(bool(near), "black holes in the unresolved halos above the minimum mass")
                b = near[0]
                left = [o for o in left if o is not b]
                ctx.le(b.x ** 2 + b.y ** 2, (3.0 if z <= 0.5 else 1.5) ** 2 * (1 + 1e-9), "unresolved black holes inside the cone")
    ctx.check(not left, "no other black holes")
    for h, s, a in zip(hs, snap, args):
        untouched(ctx, h, s, a)
    retained(ctx, R, N, None)
    ctx.observe("n", len(seeds))


@harness("one or two centres anywhere, up to three clusters of any mass, positions and sizes from the random numbers; both profiles; realization shifted before or not", prove_ms=8000)
def clusters(ctx):
    prof, counts, sh = ctx.choice("profile, clusters around each centre, shifted before", [("SPL_CORE", [1], True), ("SPL_CORE", [2], False), ("SPL_CORE", [1, 1], False), ("PTMASS", [2, 0], True), ("PTMASS", [0, 1], False),
                                                                              ("PTMASS", [0], True), ("other", [1], False)])
    two = len(counts) == 2
    pop = POP["field halo, subhalo"]
    c, lc, R, hs, snap, sh, ext = setting(ctx, pop, shifted=sh, free=0)
    args = [dict(h.args_profile) for h in hs]
    radius = ctx.real("radius", 0.05, 0.5)
    cx = [ctx.real("cx", -3, 3), 1.0 + 0.0][:1 + two]
    ctx.assume(cx[0] <= -0.1 if two else True)
    cy = [-0.5, 0.75][:1 + two]
    kpc = c.kpc_proper_per_asec(0.5)
    mean, sig = 5.0, 0.25
    expect = np.pi * 10 ** 5.6 * (radius * kpc) ** 2 / (10 ** mean * np.exp((sig * np.log(10)) ** 2 / 2))
    asked, drawn = [], []
    per = [10.0 ** (ctx.real("log%d" % i, 0, 0.9) + 4) for i in range(max(counts))]

    class Masses(object):
        """log-normal mass function: any masses"""

        def __init__(self, n, mean, sigma, *a, **k):
            asked.append((n, mean, sigma))

        def draw(self):
            v = [m * (1 + len(drawn)) for m in per[:counts[len(drawn)]]]
            drawn.append(v)
            return np.array(v)
    ctx.patch(ctx.load(X), "Gaussian", Masses)
    n0 = len(ctx.rng.log)
    kw = dict(center_x=cx if two else cx[0], center_y=cy if two else cy[0]) if not (ctx.symbolic and not two) else dict(center_x=cx, center_y=cy)
    call = lambda: ext.add_globular_clusters(mean, sig, radius, gc_density_profile=prof, gamma_mean=5.0, gamma_sigma=0.25, gc_size_mean=2.0, gc_size_sigma=0.5, **kw)
    if prof == "other":
        try:
            N = call()
        except Exception:
            return
        ctx.check(len(N.halos) == len(hs), "unknown profile of globular clusters is an error")
        return
    N = call()
    ctx.check(len(drawn) == len(cx), "number of clusters drawn around each centre")
    for n, mu, sg in asked:
        ctx.check(mu == mean and sg == sig, "log-normal masses with the given mean and width")
        ctx.le(n, expect + 1e-6, "mean number of clusters from their surface mass density")
        ctx.le(expect - 1 - 1e-6, n, "mean number of clusters from their surface mass density")
    tags = [e[2] for e in ctx.rng.log[n0:] if e[0] == "uniform" and tuple(e[1]) == (0, 1)]
    for i in range(len(tags)):
        for j in range(i):
            ctx.assume(ctx.abs(tags[i] - tags[j]) >= 1e-6)
    gcs = [h for h in N.halos if all(h is not o for o in hs)]
    ctx.check(len(gcs) == sum(counts) and len(N.halos) == len(hs) + len(gcs), "every cluster and every halo exactly once")
    for o in hs:
        ctx.check(sum(1 for h in N.halos if h is o) == 1, "halos are untouched")
    masses = [m for v in drawn for m in v]
    ctx.check(len(masses) == len(gcs), "one mass per cluster")
    for k, n in enumerate(counts):
        ctx.check(sum(1 for g in gcs if bool((g.x - cx[k]) ** 2 + (g.y - cy[k]) ** 2 <= radius ** 2 * (1 + 1e-9) + 1e-12)) == n, "clusters within the radius of their centre")
    left = list(masses)
    for g in gcs:
        m = [i for i, v in enumerate(left) if v is g.mass] or [i for i, v in enumerate(left) if bool(ctx.abs(g.mass - v) <= 1e-9 * v)]
        ctx.check(bool(m), "log-normal cluster masses")
        del left[m[0]]
        ctx.check(g.z == 0.5 and g.fixed_position and g.lenstronomy_ID == (["SPL_CORE"] if prof == "SPL_CORE" else ["POINT_MASS"]), "clusters sit at the lens with the requested profile")
        if prof == "SPL_CORE":
            gam = g.args_profile["gamma"]
            core = g.args_profile["gc_size_pc"] / g.args_profile["gc_concentration"]
            ctx.le(4.75, gam, "slope in its range")
            ctx.le(gam, 5.25, "slope in its range")
            ctx.le(1.5 ** 3 * (g.mass / 1e5), core ** 3 * (1 + 1e-6), "core radius in its range")
            ctx.le(core ** 3, 2.5 ** 3 * (g.mass / 1e5) * (1 + 1e-6), "core radius in its range")
    retained(ctx, R, N, sh)
    for h, s, a in zip(hs, snap, args):
        ctx.check(h.args_profile == a, "the given halos are not changed")
    ctx.observe("n", len(gcs))
