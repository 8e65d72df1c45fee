"""P18 non-NFW halo profiles conserve the mass they replace"""
from symx.api import registry
from harness import halos, world
import numpy as np
import math
HARNESSES, harness = registry()
B = halos.BASE
STUB = "lenstronomy.LensModel.Profiles."
POS = ("center_x", "center_y")


def enclosed(ctx, mod, cls, name, density, mono=True):
    """the profile's enclosed mass: linear in the density, otherwise an arbitrary positive function"""
    C = ctx.get(STUB + mod, cls)
    real = C.mass_3d
    F = ctx.fn(name, lambda *a: real(C(), *[float(v) for v in a[:density] + (1.0,) + a[density:]]), lo=0, lo_strict=True)

    def mass_3d(self, *a):
        return a[density] * F(*(a[:density] + a[density + 1:]))
    ctx.patch(C, "mass_3d", mass_3d)
    return F


def nfw_mass(ctx, lc, m, c, z, x):
    """mass inside x scale radii of an NFW halo of mass m and concentration c at redshift z (the halo mass itself at x = c: P16)"""
    rho, rs, _ = lc.NFW_params_physical(m, c, z)
    return 4 * math.pi * rs ** 3 * rho * (ctx.log(1 + x) - x / (1 + x))


# distances and the expansion rate are numbers here: their general relations are decided by P14-P16
def common(ctx, zl=0.5, zs=(0.2, 1.3)):
    c, lc = halos.plain_lens(ctx, zl, 2.0)
    x, y = ctx.real("x", -20, 20), ctx.real("y", -20, 20)
    m = ctx.real("m", 1e5, 1e11)
    sub = ctx.flag("subhalo")
    z = zl if sub else ctx.choice("z", list(zs))
    return c, lc, x, y, m, sub, z


def to_arcsec(c, lc, z):
    """kpc per arcsec, and M_sun per square arcsec at the critical surface density"""
    kpc = c.kpc_proper_per_asec(z)
    return kpc, lc.get_sigma_crit_lensing(z, 2.0) * 1e-6 * kpc ** 2


def position(ctx, kw, x, y):
    ctx.close(kw["center_x"], x, "lens model centred on the halo", rtol=0, atol=6e-5)
    ctx.close(kw["center_y"], y, "lens model centred on the halo", rtol=0, atol=6e-5)


class Fixed(object):
    def __init__(self, v):
        self.v = v

    def nfw_concentration(self, m, z):
        return self.v

    def f(self, m, z):
        return self.v


def build(ctx, mod, cls, m, x, y, z, sub, lc, args, conc):
    return ctx.get(B + mod, cls)(m, x, y, 80.0 if sub else None, z, sub, lc, args, halos.Trunc(ctx), conc, 0.5)


@harness("cored power law: any mass, concentration and position at three redshifts, core (as a fraction of the scale radius), slope; match radius default, fixed or the virial radius; subhalo and field", prove_ms=15000)
def power_law(ctx):
    F = enclosed(ctx, "splcore", "SPLCORE", "mass_3d", 1)
    c, lc, x, y, m, sub, z = common(ctx)
    conc = halos.Conc(ctx)
    a = {"log_slope_halo": ctx.real("slope", 1.1, 2.9), "x_core_halo": ctx.real("x_core", 1e-3, 1.0)}
    match = ctx.choice("match", ["default", "c", 3.0])
    if match != "default":
        a["x_match"] = match
    h = build(ctx, "powerlaw", "PowerLawSubhalo" if sub else "PowerLawFieldHalo", m, x, y, z, sub, lc, a, conc)
    (kw,), _ = h.lenstronomy_params
    con = conc.f(m, h.z_infall if sub else z)
    xm = {"default": 2.16, "c": con, 3.0: 3.0}[match]
    kpc, sc = to_arcsec(c, lc, z)
    _, rs, _ = lc.NFW_params_physical(m, con, h.z_infall if sub else z)
    ctx.close(kw["r_core"] * kpc, a["x_core_halo"] * rs, "core radius a fraction of the scale radius", rtol=1e-9)
    ctx.same(kw["gamma"], a["log_slope_halo"]) or ctx.check(False, "logarithmic slope")
    ctx.close(kw["sigma0"] / kw["r_core"] * F(xm * rs / kpc, kw["r_core"], kw["gamma"]) * sc, nfw_mass(ctx, lc, m, con, h.z_infall if sub else z, xm), "same mass as the NFW halo inside the match radius", rtol=1e-6)
    position(ctx, kw, x, y)
    ctx.observe("sigma0", kw["sigma0"])


@harness("generalized NFW: any mass, concentration and position at three redshifts and slopes; match radius default, fixed or the virial radius (two concentrations in that case); subhalo and field", prove_ms=15000)
def general_nfw(ctx):
    F = enclosed(ctx, "pseudo_double_powerlaw", "PseudoDoublePowerlaw", "mass_3d", 2)
    c, lc, x, y, m, sub, z = common(ctx)
    match = ctx.choice("match", ["default", "c", 3.0])
    conc = halos.Conc(ctx) if match != "c" else Fixed(ctx.choice("c", [4.0, 15.0]))
    gi, go = ctx.real("inner", 0.1, 2.9), ctx.real("outer", 3.05, 6)
    a = {"gamma_inner": gi, "gamma_outer": go}
    if match != "default":
        a["x_match"] = match
    h = build(ctx, "generalized_nfw", "GeneralNFWSubhalo" if sub else "GeneralNFWFieldHalo", m, x, y, z, sub, lc, a, conc)
    (kw,), _ = h.lenstronomy_params
    ze = h.z_infall if sub else z
    con = conc.f(m, ze)
    xm = {"default": 2.16, "c": con, 3.0: 3.0}[match]
    kpc, sc = to_arcsec(c, lc, z)
    _, rs, _ = lc.NFW_params_physical(m, con, ze)
    ctx.close(kw["Rs"], rs / kpc, "scale radius of the NFW halo", rtol=0, atol=1e-9)
    ctx.close(kw["gamma_inner"], gi, "inner slope")
    ctx.close(kw["gamma_outer"], go, "outer slope")
    prof = ctx.get(STUB + "pseudo_double_powerlaw", "PseudoDoublePowerlaw")()
    ctx.observe("alpha", kw["alpha_Rs"])
    # the deflection angle that encloses the mass of the NFW halo
    rho0 = nfw_mass(ctx, lc, m, con, h.z_infall if sub else z, xm) / (F(xm * rs / kpc, rs / kpc, gi, go) * sc)
    ctx.close(kw["alpha_Rs"], prof.rho02alpha(rho0, rs / kpc, gi, go), "same mass as the NFW halo inside the match radius", rtol=1e-6, atol=1e-10)
    position(ctx, kw, x, y)
    r = ctx.choice("r", [0.03, 5.0])
    ctx.assume(kw["Rs"] >= 1e-6)
    ctx.close(h.density_profile_3d(r) * kpc ** 3, sc * prof.density_lens(r / kpc, kw["Rs"], kw["alpha_Rs"], gi, go), "physical density is that of the lens model", rtol=1e-6)


@harness("pseudo-Jaffe: any mass, concentration, redshift and position; subhalo and field", prove_ms=15000)
def pseudo_jaffe(ctx):
    c, lc, x, y, m, sub, z = common(ctx)
    conc = halos.Conc(ctx)
    h = build(ctx, "PsuedoJaffe", "PJaffeSubhalo" if sub else "PJaffeFieldhalo", m, x, y, z, sub, lc, {}, conc)
    (kw,), _ = h.lenstronomy_params
    ze = h.z_infall if sub else z
    con = conc.f(m, ze)
    kpc, sc = to_arcsec(c, lc, z)
    _, rs, r200 = lc.NFW_params_physical(m, con, ze)
    ctx.close(kw["Rs"] * kpc, rs, "outer scale is the NFW scale radius", rtol=1e-9)
    ctx.close(kw["Ra"] * kpc, 0.01 * rs, "core is a hundredth of it", rtol=1e-9)
    prof = ctx.get(STUB + "pseudo_jaffe", "PseudoJaffe")()
    at = lambda v: np.arctan(v)
    ra = 0.01 * rs
    # rho0 of a pseudo-Jaffe profile with total mass m inside r200, in M_sun/kpc^3
    shape = 4 * math.pi * ra ** 2 * rs ** 2 / (rs ** 2 - ra ** 2) * (rs * at(con * 1.0) - ra * at(con / 0.01))
    v = kw["sigma0"] * sc / kpc ** 2 * (ra + rs) / (math.pi * ra * rs) * shape
    ctx.eq_or([(v, m), (v, nfw_mass(ctx, lc, m, con, ze, con))], "encloses the halo mass inside the virial radius", rtol=1e-6)
    position(ctx, kw, x, y)
    p = h.params_physical
    ctx.close(p["rs"], rs, "physical scale radius", rtol=1e-9)
    ctx.close(p["r200"], r200, "virial radius", rtol=1e-9)
    ctx.eq_or([(p["rho"] * shape, m), (p["rho"] * shape, nfw_mass(ctx, lc, m, con, ze, con))], "physical density encloses the halo mass inside the virial radius", rtol=1e-6)
    ctx.observe("sigma0", kw["sigma0"])


@harness("globular clusters: any mass, size, concentration, slope and position at three redshifts", prove_ms=15000)
def globular_cluster(ctx):
    F = enclosed(ctx, "splcore", "SPLCORE", "mass_3d", 1)
    c, lc = halos.plain_lens(ctx)
    z = ctx.choice("z", [0.2, 0.5, 1.3])
    m, x, y = ctx.real("m", 1e3, 1e8), ctx.real("x", -5, 5), ctx.real("y", -5, 5)
    size, con, g = ctx.real("size pc", 1, 500), ctx.real("c", 1.5, 100), ctx.real("gamma", 3.5, 8)
    M = ctx.load(B + "globular_cluster")
    h = M.GlobularCluster(m, x, y, z, lc, {"gamma": g, "gc_size_pc": size, "gc_concentration": con}, 0.5)
    (kw,), _ = h.lenstronomy_params
    kpc, sc = to_arcsec(c, lc, z)
    ctx.close(kw["r_core"] * kpc * 1000 * con, size, "core radius is the size over the concentration", rtol=1e-9)
    ctx.close(kw["gamma"], g, "logarithmic slope")
    ctx.close(kw["sigma0"] / kw["r_core"] * F(size / 1000 / kpc, kw["r_core"], g) * sc, m, "encloses its mass inside its size", rtol=1e-6)
    ctx.check(h.fixed_position and not h.is_subhalo, "a fixed object of the main deflector")
    position(ctx, kw, x, y)
    rho0, s, g2, rc = h.profile_args
    ctx.close(s * 1000, size, "size in kpc", rtol=1e-9)
    ctx.close(rc * con, s, "core radius in kpc", rtol=1e-9)
    ctx.close(g2, g, "logarithmic slope")
    ctx.close(rho0 * F(size / 1000, rc, g), m, "physical density encloses the mass inside the size", rtol=1e-6)
    r = ctx.real("r", 1e-4, 1)
    ctx.close(h.density_profile_3d_lenstronomy(r) * kpc ** 3, sc * ctx.get(STUB + "splcore", "SPLCORE")().density_lens(r / kpc, kw["sigma0"], kw["r_core"], g), "physical density is that of the lens model", rtol=1e-6)
    if ctx.symbolic and hasattr(M, "brentq"):
        def brentq(f, a, b, *aa, **k):
            rr = ctx.real("root", 1e-12, 1e3)
            ctx.assume(rr >= a)
            ctx.assume(rr <= b)
            ctx.assume(f(rr) == 0)
            return rr
        ctx.patch(M, "brentq", brentq)
    rh = h.half_mass_radius
    ctx.close(rho0 * F(rh / 1000, rc, g), m / 2, "half of the mass inside the half-mass radius", rtol=1e-6)
    ctx.le(rh, size, "half-mass radius inside the cluster")
    ctx.observe("sigma0", kw["sigma0"])


@harness("black holes and Gaussian fluctuations: any mass, redshift, position and arguments; fixed and movable")
def point_mass(ctx):
    c, lc, x, y, m, sub, z = common(ctx)
    fixed = ctx.flag("fixed")
    C = ctx.get(B + "blackhole", "BlackHole")
    h = C(m, x, y, None, z, sub, lc, {}, None, None, 0.5, **({} if fixed else {"fixed_position": False}))
    (kw,), _ = h.lenstronomy_params
    ctx.check(h.fixed_position is fixed, "moved with the halos only if requested")
    D = lambda a, b: c.D_A(a, b)
    G, cl = 4.30091e-9, 299792.458      # Mpc (km/s)^2 / M_sun
    # squared Einstein radius 4 G m / c^2 * D_ds / (D_d D_s)
    ctx.close(kw["theta_E"] ** 2 * world.ARCSEC ** 2 * c.D_A_z(z) * c.D_A_z(2.0), 4 * G * m / cl ** 2 * D(z, 2.0), "Einstein radius of a point mass", rtol=3e-3)
    ctx.close(h.mass_3d(ctx.real("r", 1e-3, 1e3)), m, "all of the mass at the centre")
    position(ctx, kw, x, y)
    amp, s = ctx.real("amp", -1, 1), ctx.real("sigma", 1e-4, 1)
    g = ctx.get(B + "gaussianhalo", "GaussianHalo")(m, x, y, None, z, sub, lc, {"amp": amp, "sigma": s, "center_x": x, "center_y": y}, None, None, 0.5)
    (kw,), _ = g.lenstronomy_params
    ctx.close(kw["amp"], amp, "amplitude of the fluctuation")
    ctx.close(kw["sigma"], s, "size of the fluctuation")
    position(ctx, kw, x, y)
    ctx.check(g.fixed_position and g.z_eval is z, "a fixed object at its redshift")


@harness("isothermal sphere and massive galaxy replacing any truncated halo (subhalo or field): any mass, concentration, truncation, redshift, position; enclosed mass of the halo arbitrary", prove_ms=15000)
def galaxies(ctx):
    F = enclosed(ctx, "pseudo_double_powerlaw", "PseudoDoublePowerlaw", "mass_3d", 2)
    c, lc, x, y, m, sub, z = common(ctx)
    conc = halos.Conc(ctx)
    old = halos.make(ctx, "TNFW", lc, x, y, z, m, sub, 0.5, conc, halos.Trunc(ctx))
    inside = ctx.real("mass within r200", 1e3, 1e12)
    asked = []

    def mass_3d(r, *a):
        asked.append(r)
        return inside
    ctx.patch(old, "mass_3d", mass_3d)
    vmax = ctx.real("vmax", 1, 500)
    ctx.patch(type(old), "vmax_nfw", property(lambda s: vmax))
    ctx.patch(lc, "nfw_vmax", lambda *a: vmax)
    S = ctx.load(B + "sis")
    s = S.SIS(old)
    (kw,), _ = s.lenstronomy_params
    ctx.close(kw["theta_E"], 4 * math.pi * (0.646 * vmax / 299792.458) ** 2 * c.D_A(z, 2.0) / c.D_A(0, 2.0) / world.ARCSEC, "Einstein radius of the isothermal sphere with 0.646 of the halo's maximum circular velocity", rtol=1e-4)
    position(ctx, kw, x, y)
    g = S.MassiveGalaxy(old)
    (kw,), _ = g.lenstronomy_params
    ctx.check(kw["gamma_inner"] == 2.0 and kw["gamma_outer"] == 5.0, "slopes of the galaxy profile")
    kpc, sc = to_arcsec(c, lc, z)
    r200 = old.nfw_params[2]
    # a subhalo's galaxy profile starts to fall off at its truncation radius, a field halo's at its scale radius
    rs = old.profile_args[1] if sub else old.nfw_params[1]
    ctx.close(kw["Rs"], rs / kpc, "scale of the galaxy profile", rtol=0, atol=1e-9)
    ctx.check(all(r == "r200" or ctx.is_true(ctx.abs(r - r200) <= 1e-6 * r200) for r in asked) and asked, "the mass inside the virial radius is conserved")
    prof = ctx.get(STUB + "pseudo_double_powerlaw", "PseudoDoublePowerlaw")()
    rho0 = inside / (F(r200 / kpc, rs / kpc, 2.0, 5.0) * sc)
    ctx.close(kw["alpha_Rs"], prof.rho02alpha(rho0, rs / kpc, 2.0, 5.0), "same mass as the halo inside the virial radius", rtol=1e-6, atol=1e-10)
    position(ctx, kw, x, y)
    r = ctx.real("r", 0.01, 10)
    ctx.assume(kw["Rs"] >= 1e-6)
    ctx.close(g.density_profile_3d_lenstronomy(r) * kpc ** 3, sc * prof.density_lens(r / kpc, kw["Rs"], kw["alpha_Rs"], 2.0, 5.0), "physical density is that of the lens model", rtol=1e-6)
    for n in (s, g):
        ctx.check(n.mass is old.mass and n.z is old.z and n.x is old.x and n.y is old.y and n.r3d is old.r3d and n.unique_tag == old.unique_tag and n.is_subhalo == old.is_subhalo, "keeps mass, position, redshift, status and tag")
        if sub:
            ctx.close(n.bound_mass, old.bound_mass, "keeps the bound mass", rtol=1e-9)
        else:
            ctx.raises(lambda: n.bound_mass, label="no bound mass for field objects")
    ctx.observe("alpha", kw["alpha_Rs"])


@harness("core-collapsed halos with a steep centre or a black hole: any enclosed-mass functions of the two components, any two target masses, radii and scales; negative solutions must be refused", prove_ms=15000, budget=150)
def collapsed(ctx):
    E = enclosed(ctx, "tnfw", "TNFW", "envelope mass_3d", 2)
    P = enclosed(ctx, "pseudo_double_powerlaw", "PseudoDoublePowerlaw", "centre mass_3d", 2)
    c, lc, x, y, m, sub, z = common(ctx, zs=(1.3,))
    bh = ctx.flag("black hole") if ctx.thorough else sub
    gi, go = 2.5, 3.5
    rt, ri, rm = ctx.real("rt", 0.01, 50), ctx.real("r_inner", 1e-3, 1), ctx.real("r_match", 1e-2, 5)
    mr, mv = ctx.real("m_R", 1e3, 1e9), ctx.real("m_200", 1e4, 1e10)
    a = {"gamma_inner": gi, "gamma_outer": go, "rt_kpc": rt, "Rs_inner_kpc": ri, "r_match_kpc": rm, "m_target_R": mr, "m_target_r200": mv, "sidm_timescale": 20.0, "lambda_t": 1.0}
    conc = Fixed(10.0)
    h = build(ctx, "core_collapsed_halo", "CoreCollapsedHaloBH" if bh else "CoreCollapsedHalo", m, x, y, z, sub, lc, a, conc)
    kpc, sc = to_arcsec(c, lc, z)
    _, rs, r200 = h.nfw_params
    en, ce = ctx.get(STUB + "tnfw", "TNFW")(), ctx.get(STUB + "pseudo_double_powerlaw", "PseudoDoublePowerlaw")()
    Rs, Ri = rs / kpc, ri / kpc
    env = lambda r: en.alpha2rho0(1.0, Rs) * E(r, Rs, rt / kpc / Rs)
    cen = lambda r: ce.alpha2rho0(1.0, Ri, gi, go) * P(r, Ri, gi, go)
    A, Bm, C, D = env(rm / kpc), cen(rm / kpc), env(r200 / kpc), cen(r200 / kpc)
    ctx.assume(ctx.abs(A * D - Bm * C) >= 1e-6)
    # the two components together enclose both target masses
    det = A * D - Bm * C
    ae, ac = (D * mr - Bm * mv) / det / sc, (A * mv - C * mr) / det / sc
    try:
        (kw,), _ = h.lenstronomy_params
    except Exception as e:
        if "negative" not in str(e):
            raise
        ctx.check((ae < 0) | (ac < 0), "refused only if a component would be negative")
        return
    ctx.close(kw["alpha_Rs_outer"], ae, "the components enclose the target masses (envelope)", rtol=1e-6, atol=1e-9)
    ctx.le(0, kw["alpha_Rs_outer"], "no negative component")
    if bh:
        ctx.close(kw["theta_E_inner"], lc.point_mass_factor_z(z) * ctx.sqrt(mr), "the black hole has the mass of the centre", rtol=1e-6, atol=1e-9)
    else:
        ctx.close(kw["alpha_Rs_inner"], ac, "the components enclose the target masses (centre)", rtol=1e-6, atol=1e-9)
        ctx.le(0, kw["alpha_Rs_inner"], "no negative component")
        ctx.close(kw["Rs_inner"], Ri, "inner scale", rtol=0, atol=1e-9)
        ctx.check(kw["gamma_inner"] == gi and kw["gamma_outer"] == go, "slopes")
        split = h.lenstronomy_params_split[0]
        ctx.close(split[0]["alpha_Rs"], kw["alpha_Rs_inner"], "the split description agrees", rtol=0, atol=1e-9)
        ctx.close(split[1]["alpha_Rs"], kw["alpha_Rs_outer"], "the split description agrees", rtol=0, atol=1e-9)
        ctx.close(split[1]["r_trunc"], kw["r_trunc"], "the split description agrees", rtol=0, atol=1e-9)
        position(ctx, split[0], x, y)
        position(ctx, split[1], x, y)
    ctx.close(kw["Rs_outer"], Rs, "outer scale", rtol=0, atol=1e-9)
    ctx.close(kw["r_trunc"], rt / kpc, "truncation radius", rtol=0, atol=1e-9)
    position(ctx, kw, x, y)


@harness("cored and truncated halos: any mass to conserve, core, truncation and scale; evolving profile at any age; density falling with radius squared (any amplitude), concentrations 4 and 15", prove_ms=15000)
def cored_truncated(ctx):
    T = ctx.get(STUB + "nfw_core_truncated", "TNFWC")
    G = ctx.fn("density amplitude", lambda a, b, c: 1 + a + 2 * b + 3 * c, lo=1e-3, hi=1e3)
    ctx.patch(T, "density_lens", lambda self, r, Rs, alpha, r_core, r_trunc: alpha * G(Rs, r_core, r_trunc) * r ** -2.0)
    c, lc, x, y, m, sub, z = common(ctx)
    kind = ctx.choice("kind", ["TNFWCHaloParametric", "TNFWCHaloEvolving"])
    con = ctx.choice("c", [4.0, 15.0])
    rt, mc = ctx.real("rt", 0.01, 50), ctx.real("conserved mass", 1e4, 1e10)
    a = {"rt_kpc": rt, "mass_conservation": mc}
    if kind == "TNFWCHaloParametric":
        a["x_core_halo"] = xc = ctx.real("x_core", 1e-3, 0.5)
    else:
        a["lambda_t"], a["sidm_timescale"] = 1.0, ctx.choice("timescale", [400.0, 9.0, 1.0])
    h = build(ctx, "NFW_core_trunc", kind, m, x, y, z, sub, lc, a, Fixed(con))
    (kw,), _ = h.lenstronomy_params
    kpc, sc = to_arcsec(c, lc, z)
    _, rs, r200 = lc.NFW_params_physical(m, con, 2.0 if sub else z)
    ctx.close(kw["alpha_Rs"] * G(kw["Rs"], kw["r_core"], kw["r_trunc"]) * 4 * math.pi * sc / kpc * r200, mc, "encloses the conserved mass inside the virial radius", rtol=2e-3)
    ctx.close(kw["r_trunc"] * kpc, rt, "truncation radius", rtol=1e-9)
    ctx.lt(0, kw["r_core"], "positive core")
    if kind == "TNFWCHaloParametric":
        ctx.le(kw["r_core"], kw["Rs"] * (1 + 1e-9), "core not larger than the scale radius")
        ctx.le(kw["Rs"] * kpc, xc * rs * (1 + 1e-9), "scale radius at most the requested fraction")
        if ctx.is_true(xc * rs <= rt):
            ctx.close(kw["Rs"] * kpc, xc * rs, "scale radius the requested fraction of the NFW scale radius", rtol=1e-6)
        else:
            ctx.le(kw["Rs"], kw["r_trunc"], "scale radius not beyond the truncation radius")
    position(ctx, kw, x, y)
    p = h.params_physical
    ctx.close(p["r_trunc_kpc"], rt, "physical truncation radius", rtol=1e-9)
    ctx.close(p["rs"], kw["Rs"] * kpc, "physical scale radius", rtol=1e-9)
    ctx.close(p["r_core_kpc"], kw["r_core"] * kpc, "physical core radius", rtol=1e-9)
    ctx.close(p["r200"], r200, "virial radius", rtol=1e-9)
    ctx.observe("alpha", kw["alpha_Rs"])


@harness("cored NFW and hybrid halos: any mass, core, position, rescaling and weight; projected mass an arbitrary function", prove_ms=15000)
def cored_and_hybrid(ctx):
    C = ctx.get(STUB + "cnfw", "CNFW")
    M2 = ctx.fn("mass_2d", lambda R, Rs, rc: R ** 3 / (R + Rs + rc), lo=0, lo_strict=True)
    ctx.patch(C, "mass_2d", lambda self, R, Rs, rho0, rc: rho0 * M2(R, Rs, rc))
    c, lc, x, y, m, sub, z = common(ctx)
    conc = halos.Conc(ctx)
    beta = ctx.real("beta", 1e-3, 1)
    h = build(ctx, "NFW_core", "CoreNFWHalo", m, x, y, z, sub, lc, {"beta": beta}, conc)
    k = ctx.real("factor", 0.01, 1)
    if ctx.flag("rescaled"):
        h.rescale_normalization(k)
    else:
        k = 1.0
    (kw,), _ = h.lenstronomy_params
    kpc, sc = to_arcsec(c, lc, z)
    rho, rs, _ = lc.NFW_params_physical(m, conc.f(m, 2.0 if sub else z), 2.0 if sub else z)
    ctx.close(kw["Rs"], rs / kpc, "NFW scale radius", rtol=0, atol=1e-9)
    ctx.close(kw["r_core"], beta * rs / kpc, "core radius a fraction of the scale radius", rtol=0, atol=1e-9)
    al = lc.nfw_physical2angle_fromNFWparams(rho * 1e9, rs * 1e-3, z)[1]
    ctx.close(kw["alpha_Rs"], k * al * M2(rs, rs, beta * rs) / M2(rs, rs, 1e-4 * rs), "deflection of the NFW halo times the ratio of the projected masses with and without core", rtol=1e-6, atol=2e-10)
    position(ctx, kw, x, y)
    w = ctx.real("weight", 0, 1)
    t, tc = halos.make(ctx, "TNFW", lc, x, y, z, m, sub), halos.make(ctx, "TNFW", lc, x, y, z, m, sub)
    d1, d2, a1, a2 = ctx.real("rho1", 0, 10), ctx.real("rho2", 0, 10), ctx.real("alpha1", 0.01, 10), ctx.real("alpha2", 0.01, 10)

    class Part(object):
        def __init__(self, halo, d, a, name):
            self._h, self._d, self._a = halo, d, a

        def __getattr__(self, n):
            return getattr(self._h, n)

        def density_profile_3d(self, r, *a):
            return self._d
        density_profile_3d_lenstronomy = density_profile_3d

        @property
        def lenstronomy_params(self):
            return [{"alpha_Rs": self._a, "Rs": 0.1, "center_x": 0.0, "center_y": 0.0}], None
    y1, y2 = Part(t, d1, a1, "TNFW"), Part(tc, d2, a2, "TNFWC")
    hy = ctx.get(B + "NFW_core_trunc", "Hybrid")(y1, y2, w)
    (k1, k2), _ = hy.lenstronomy_params
    ctx.close(k1["alpha_Rs"], (1 - w) * a1, "weights of the two components add up to one", rtol=1e-9, atol=1e-12)
    ctx.close(k2["alpha_Rs"], w * a2, "weights of the two components add up to one", rtol=1e-9, atol=1e-12)
    ctx.check(list(hy.lenstronomy_ID) == ["TNFW", "TNFWC"], "component names")
    for q in (k1, k2):
        position(ctx, q, x, y)
    ctx.close(hy.density_profile_3d(1.0), (1 - w) * d1 + w * d2, "density is the weighted sum", rtol=1e-9, atol=1e-12)
    ctx.close(hy.density_profile_3d_lenstronomy(1.0), (1 - w) * d1 + w * d2, "density is the weighted sum", rtol=1e-9, atol=1e-12)
    ctx.check(hy.mass is t.mass and hy.z == t.z and hy.unique_tag == t.unique_tag and hy.is_subhalo == t.is_subhalo, "keeps mass, redshift, tag and status")
