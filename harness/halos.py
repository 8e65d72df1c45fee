"""Real halo objects of every profile class of the package, built on stand-in concentration and truncation models."""
from harness import world

BASE = "pyHalo.Halos.HaloModels."


class Conc(object):
    """concentration-mass relation: any positive function of mass and redshift; remembers what it was asked"""

    def __init__(self, ctx, name="conc", lo=1, hi=50, noisy=False):
        self.f = ctx.fn(name, lambda m, z, *k: 8.0 + 0.1 * z, lo=lo, hi=hi)
        self.asked = []
        self.noisy = noisy

    def nfw_concentration(self, m, z, *a, **k):
        self.asked.append((m, z))
        return self.f(m, z, len(self.asked)) if self.noisy else self.f(m, z)


class Trunc(object):
    """truncation model: any positive radius depending on the halo's mass, redshift and 3D radius"""

    def __init__(self, ctx, name="rt", tag="stand-in", noisy=False):
        self.f = ctx.fn(name, lambda m, z, *k: 1.5 + 0.1 * z, lo=1e-3, hi=1e3)
        self.name = tag
        self.asked = []
        self.noisy = noisy

    def truncation_radius_halo(self, halo):
        self.asked.append(halo)
        return self.f(halo.mass, halo.z, len(self.asked)) if self.noisy else self.f(halo.mass, halo.z)


def lens(ctx, zl=0.5, zs=2.0):
    c = world.Cosmology(ctx)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    inf = ctx.fn("z_infall_model", lambda m, *k: 2.0, lo=zl, hi=12)
    calls = []

    class Infall(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, m):
            calls.append(m)
            return inf(m, len(calls))
    lc.setup_infall_model(Infall, {})
    lc.sigma_crit_arcsecond_interp = lambda z: lc.get_sigma_crit_lensing(z, zs) * (0.001 * c.kpc_proper_per_asec(z)) ** 2
    return c, lc, calls


# profile name in a realization -> density-profile arguments it needs
ARGS = {
    "NFW": {}, "TNFW": {}, "PT_MASS": {}, "PJAFFE": {},
    "GNFW": {"gamma_inner": 1.5, "gamma_outer": 3.0},
    "SPL_CORE": {"log_slope_halo": 2.5, "x_core_halo": 0.05},
    "GAUSSIAN_KAPPA": {"amp": 0.01, "sigma": 0.02, "center_x": 0.1, "center_y": 0.2},
}


def plain_lens(ctx, zl=0.5, zs=2.0):
    """numbers instead of arbitrary functions, where only positions and bookkeeping matter"""
    c = world.Cosmology(ctx, free=False)
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)

    class Infall(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, m):
            return 2.0
    lc.setup_infall_model(Infall, {})
    lc.sigma_crit_arcsecond_interp = lambda z: lc.get_sigma_crit_lensing(z, zs) * (0.001 * c.kpc_proper_per_asec(z)) ** 2
    return c, lc


class Plain(object):
    name = "stand-in"

    def nfw_concentration(self, m, z, *a, **k):
        return 10.0

    def truncation_radius_halo(self, halo):
        return 2.0


def make(ctx, kind, lc, x, y, z, mass=1e8, sub=True, tag=0.5, conc=None, trunc=None):
    """a real halo of any profile class"""
    g = lambda mod, cls: ctx.get(BASE + mod, cls)
    co, tr = conc or Plain(), trunc or Plain()
    r3d = 80.0 if sub else None

    def std(mod, cls, args, **k):
        return g(mod, cls)(mass=mass, x=x, y=y, r3d=r3d, z=z, sub_flag=sub, lens_cosmo_instance=lc, args=args, truncation_class=tr, concentration_class=co, unique_tag=tag, **k)
    if kind == "NFW":
        return std("NFW", "NFWSubhhalo" if sub else "NFWFieldHalo", {})
    if kind == "TNFW":
        return std("TNFW", "TNFWSubhalo" if sub else "TNFWFieldHalo", {})
    if kind == "PT_MASS":
        return std("blackhole", "BlackHole", {})
    if kind == "PT_MASS free":
        return std("blackhole", "BlackHole", {}, fixed_position=False)
    if kind == "PJAFFE":
        return std("PsuedoJaffe", "PJaffeSubhalo" if sub else "PJaffeFieldhalo", {})
    if kind == "GNFW":
        return std("generalized_nfw", "GeneralNFWSubhalo" if sub else "GeneralNFWFieldHalo", {"gamma_inner": 1.5, "gamma_outer": 3.5})
    if kind == "SPL_CORE":
        return std("powerlaw", "PowerLawSubhalo" if sub else "PowerLawFieldHalo", {"log_slope_halo": 2.5, "x_core_halo": 0.05})
    if kind == "CNFW":
        return std("NFW_core", "CoreNFWHalo", {"beta": 0.2})
    if kind == "GAUSSIAN_KAPPA":
        return std("gaussianhalo", "GaussianHalo", {"amp": 0.01, "sigma": 0.02, "center_x": x, "center_y": y})
    if kind == "ULDM":
        M = ctx.load(BASE + "ULDM")
        if hasattr(M, "minimize"):
            ctx.patch(M, "minimize", lambda *a, **k: {"x": (1.0, 1.0)})
        return std("ULDM", "ULDMSubhalo" if sub else "ULDMFieldHalo", {"log10_m_uldm": -21, "uldm_plaw": 1 / 3., "scale_nfw": False})
    if kind == "GC":
        return g("globular_cluster", "GlobularCluster")(mass, x, y, z, lc, {"gamma": 6.0, "gc_size_pc": 10.0, "gc_concentration": 5.0}, tag)
    if kind in ("SIS", "GALAXY"):
        return g("sis", "SIS" if kind == "SIS" else "MassiveGalaxy")(make(ctx, "TNFW", lc, x, y, z, mass, sub, tag, co, tr))
    if kind == "TNFWC":
        return std("NFW_core_trunc", "TNFWCHaloParametric", {"x_core_halo": 0.05, "rt_kpc": 1.0, "mass_conservation": 1e8})
    if kind == "TNFWC evolving":
        return std("NFW_core_trunc", "TNFWCHaloEvolving", {"sidm_timescale": 20.0, "lambda_t": 1.0, "rt_kpc": 1.0, "mass_conservation": 1e8})
    if kind == "HYBRID":
        return g("NFW_core_trunc", "Hybrid")(make(ctx, "TNFW", lc, x, y, z, mass, sub, tag, co, tr), make(ctx, "TNFWC", lc, x, y, z, mass, sub, tag, co, tr), 0.3)
    if kind in ("COLLAPSED", "COLLAPSED BH"):
        a = {"gamma_inner": 2.5, "gamma_outer": 3.5, "rt_kpc": 3.0, "Rs_inner_kpc": 0.02, "r_match_kpc": 0.3, "m_target_R": 1e7, "m_target_r200": 8e7,
             "sidm_timescale": 20.0, "lambda_t": 1.0}
        return std("core_collapsed_halo", "CoreCollapsedHalo" if kind == "COLLAPSED" else "CoreCollapsedHaloBH", a)
    if kind == "PARAMS":
        kpc = lc.cosmo.kpc_proper_per_asec(z)
        return g("TNFWFromParams", "TNFWFromParams")(mass, x * kpc, y * kpc, r3d, z, sub, lc, {"r_trunc_kpc": 2.0, "rs": 0.5, "rhos": 1e7, "rv": 5.0, "z_infall": 2.0, "index": 3}, tag)
    raise ValueError(kind)


# profile class -> (lens model names, may be moved, subhalo only)
KINDS = {"NFW": ["NFW"], "TNFW": ["TNFW"], "PT_MASS": ["POINT_MASS"], "PT_MASS free": ["POINT_MASS"], "PJAFFE": ["PJAFFE"], "GNFW": ["PSEUDO_DPL"], "SPL_CORE": ["SPL_CORE"],
         "CNFW": ["CNFW"], "GAUSSIAN_KAPPA": ["GAUSSIAN"], "ULDM": ["CNFW", "ULDM"], "GC": ["SPL_CORE"], "SIS": ["SIS"], "GALAXY": ["PSEUDO_DPL"], "TNFWC": ["TNFWC"],
         "TNFWC evolving": ["TNFWC"], "HYBRID": ["TNFW", "TNFWC"], "COLLAPSED": ["CORE_COLLAPSED_HALO"], "COLLAPSED BH": ["CORE_COLLAPSED_HALO_BH"], "PARAMS": ["TNFW"]}
