"""P16 lensing unit conversions are mutually inverse and dimensionally consistent"""
from symx.api import registry
from harness import world, halos
import numpy as np
import math
HARNESSES, harness = registry()

# textbook constants, SI
G, C, MSUN, MPC = 6.67384e-11, 299792458.0, 1.98847e30, 3.08567758e22
C2_4PIG = C ** 2 / (4 * math.pi * G) / MSUN * MPC          # M_sun / Mpc
RHOC = 2.77536627e11                                       # critical density today, h^2 M_sun / Mpc^3


def setup(ctx, zl=0.5, zs=2.0):
    c = world.Cosmology(ctx)
    return c, world.free_lens_cosmo(ctx, zl, zs, cosmo=c)


def rhoc(c, z):
    return RHOC * c.h ** 2 * c.E(z) ** 2


@harness("critical surface density between any two planes in any cosmology; lens-plane values in the three units; lens redshift anywhere before the source")
def critical(ctx):
    zl, zs = ctx.real("z_lens", 0.05, 1.8), 2.0
    c, lc = setup(ctx, zl, zs)
    a, b = ctx.real("za", 0.01, 3.0), ctx.real("zb", 0.05, 4.0)
    ctx.assume(b - a >= 0.01)
    s = lc.get_sigma_crit_lensing(a, b)
    ctx.close(s * c.D_A_z(a) * c.D_A(a, b), C2_4PIG * c.D_A_z(b), "critical density is c^2/(4 pi G) D_s/(D_d D_ds) in M_sun/Mpc^2", rtol=1e-6)
    ctx.le(0, s, "positive in front of the source")
    area = ctx.real("area", 1e-6, 10)
    z = ctx.real("z", 0.01, 1.99)
    ctx.close(lc.sigma_crit_mass(z, area), area * lc.get_sigma_crit_lensing(z, zs), "critical mass is the critical density at that plane times the area", rtol=1e-9)
    ctx.observe("sigma", s)


@harness("lens-plane attributes set by the constructor, three lens/source pairs, and the interpolated critical density at any redshift on the planes", max_paths=400)
def constructed(ctx):
    ctx.exact_tables()
    zl, zs = ctx.choice("system", [(0.5, 1.5), (0.2, 0.45), (1.0, 1.3)])
    c = world.Cosmology(ctx, free=False)
    lc = world.lens_cosmo(ctx, zl, zs, cosmo=c)
    s = C2_4PIG * c.D_A_z(zs) / (c.D_A_z(zl) * c.D_A(zl, zs))
    kpc = c.kpc_proper_per_asec(zl)
    ctx.close(lc.sigma_crit_lensing, s, "critical density at the lens, M_sun/Mpc^2", rtol=1e-6)
    ctx.close(lc.sigma_crit_lens_kpc, s * 1e-6, "critical density at the lens, M_sun/kpc^2", rtol=1e-6)
    ctx.close(lc.sigmacrit, s * 1e-6 * kpc ** 2, "critical density at the lens, M_sun/arcsec^2", rtol=1e-6)
    ctx.close(lc.D_d, c.D_A_z(zl), "distance to the lens", rtol=1e-9)
    ctx.close(lc.D_s, c.D_A_z(zs), "distance to the source", rtol=1e-9)
    ctx.close(lc.D_ds, c.D_A(zl, zs), "distance from lens to source", rtol=1e-9)
    z = ctx.choice("plane", [0.11, zl, zl + 0.1])
    v = lc.sigma_crit_arcsecond_interp(z)
    ctx.close(v, C2_4PIG * c.D_A_z(zs) / (c.D_A_z(z) * c.D_A(z, zs)) * 1e-6 * c.kpc_proper_per_asec(z) ** 2, "critical density in M_sun/arcsec^2 on a plane", rtol=1e-3)
    w = ctx.real("between planes", 0.1, 0.17)
    v = lc.sigma_crit_arcsecond_interp(w)
    lo, hi = [C2_4PIG * c.D_A_z(zs) / (c.D_A_z(t) * c.D_A(t, zs)) * 1e-6 * c.kpc_proper_per_asec(t) ** 2 for t in (0.08, 0.19)]
    ctx.le(min(lo, hi), v, "between planes: between the neighbouring values", tol=1e-3)
    ctx.le(v, max(lo, hi), "between planes: between the neighbouring values", tol=1e-3)
    ctx.check(lc.z_lens == zl and lc.z_source == zs, "redshifts kept")


@harness("NFW halo of any mass 1e4-1e16, concentration 0.5-200 and redshift, both profile variants, scalar arguments")
def nfw(ctx):
    c, lc = setup(ctx)
    m, conc, z = ctx.real("m", 1e4, 1e16), ctx.real("c", 0.5, 200), ctx.real("z", 0.01, 1.99)
    pseudo = ctx.flag("pseudo")
    rho0, rs, r200 = lc.nfwParam_physical(m, conc, z, pseudo)
    ctx.close(4 * math.pi / 3 * r200 ** 3 * 200 * rhoc(c, z), m, "the virial radius encloses 200 times the critical density", rtol=1e-6)
    ctx.close(rs * conc, r200, "scale radius is virial radius over concentration", rtol=1e-9)
    if pseudo:
        ctx.close(4 * math.pi * rho0 * rs ** 3, m / (ctx.log(1 + conc ** 2) / 2), "the normalisation encloses the halo mass (pseudo NFW)", rtol=1e-6)
    else:
        ctx.close(4 * math.pi * rho0 * rs ** 3, m / (ctx.log(1 + conc) - conc / (1 + conc)), "the normalisation encloses the halo mass", rtol=1e-6)
    rk, sk, vk = lc.NFW_params_physical(m, conc, z, pseudo)
    ctx.close(rk * 1e9, rho0, "density in M_sun/kpc^3", rtol=1e-9)
    ctx.close(sk, rs * 1000, "scale radius in kpc", rtol=1e-9)
    ctx.close(vk, r200 * 1000, "virial radius in kpc", rtol=1e-9)
    ctx.observe("rho0", rho0)
    ctx.observe("rs", rs)


@harness("angular description of any NFW halo at any redshift in front of the source, both variants")
def angles(ctx):
    c, lc = setup(ctx)
    m, conc, z = ctx.real("m", 1e4, 1e16), ctx.real("c", 0.5, 200), ctx.real("z", 0.01, 1.99)
    pseudo = ctx.flag("pseudo")
    kw = {"pseudo_nfw": pseudo} if pseudo or ctx.flag("explicit") else {}
    th, al = lc.nfw_physical2angle(m, conc, z, **kw)
    rho0, rs, _ = lc.nfwParam_physical(m, conc, z, pseudo)
    ctx.close(th * world.ARCSEC * c.D_A_z(z), rs, "the angular scale radius is the physical one over the distance", rtol=1e-6)
    k = math.sqrt(2) * math.log(1 + math.sqrt(2)) - math.log(2) if pseudo else 1 - math.log(2)
    ctx.close(al * world.ARCSEC * c.D_A_z(z) * lc.get_sigma_crit_lensing(z, 2.0), 4 * rho0 * rs ** 2 * k, "deflection at the scale radius", rtol=1e-6)
    t2, a2 = lc.nfw_physical2angle_fromNFWparams(rho0, rs, z, **kw)
    ctx.close(t2, th, "same from parameters", rtol=1e-9)
    ctx.close(a2, al, "same from parameters", rtol=1e-9)
    ctx.observe("alpha", al)


@harness("radius of overdensity N: any mass, redshift and N from 1 to 1e5")
def overdensity(ctx):
    c, lc = setup(ctx)
    m, z, n = ctx.real("m", 1e4, 1e16), ctx.real("z", 0.01, 1.99), ctx.real("N", 1, 1e5)
    r = lc.rN_M(m * c.h, z, n)
    ctx.close(4 * math.pi / 3 * r ** 3 * n * rhoc(c, z), m, "encloses N times the critical density", rtol=1e-6)
    ctx.close(lc.rN_M(m * c.h, z, 8 * n) * 2, r, "scales as N to the minus one third", rtol=1e-6)
    ctx.close(lc.rN_M(m * c.h, z, 200), lc.nfwParam_physical(m, 5.0, z)[2], "N=200 is the virial radius", rtol=1e-6)


@harness("parameters from mass and redshift: arbitrary concentration relation and scaling, both variants")
def from_mass(ctx):
    c, lc = setup(ctx)
    M = ctx.load("pyHalo.Halos.concentration")
    f = ctx.fn("relation", lambda m, z: 10.0 - z, lo=1, hi=60)
    made = []

    class Relation(object):
        def __init__(self, *a, **k):
            made.append((a, k))

        def nfw_concentration(self, m, z):
            return f(m, z)
    ctx.patch(M, "ConcentrationDiemerJoyce", Relation)
    m, z, s = ctx.real("m", 1e4, 1e16), ctx.real("z", 0.01, 1.99), ctx.real("scale", 0.1, 5)
    pseudo = ctx.flag("pseudo")
    v = lc.NFW_params_physical_fromMZ(m, z, scale_concentration=s, pseudo_nfw=pseudo)
    ctx.all_close(v, lc.NFW_params_physical(m, s * f(m, z), z, pseudo), "uses the scaled concentration", rtol=1e-9)
    v = lc.NFW_params_physical_fromMZ(2 * m, z)
    ctx.all_close(v, lc.NFW_params_physical(2 * m, f(2 * m, z), z), "defaults: unscaled NFW", rtol=1e-9)
    ctx.check(len(made) >= 1 and all(k.get("scatter") is False for a, k in made), "the relation has no scatter")


@harness("point mass and isothermal lens scales: any redshift, mass and velocity dispersion")
def scales(ctx):
    c, lc = setup(ctx)
    z, m, s = ctx.real("z", 0.01, 1.99), ctx.real("m", 1, 1e12), ctx.real("sigma", 1, 2000)
    th = ctx.sqrt(m) * lc.point_mass_factor_z(z) * world.ARCSEC
    ctx.close(th ** 2 * math.pi * c.D_A_z(z) ** 2 * lc.get_sigma_crit_lensing(z, 2.0), m, "the Einstein radius of a point mass encloses the mass at the critical density", rtol=1e-6)
    e = lc.thetaE_from_sigma(z, s)
    ctx.close(e * world.ARCSEC * c.D_A(0, 2.0), 4 * math.pi * (s / 299792.458) ** 2 * c.D_A(z, 2.0), "isothermal Einstein radius", rtol=1e-4)


@harness("peak velocity, mean free path and dynamical time scale as documented: any density, radius, cross section, mass and concentration")
def dynamics(ctx):
    c, lc = setup(ctx)
    rho, rs, k = ctx.real("rho", 1, 1e12), ctx.real("rs", 1e-3, 1e4), ctx.real("k", 0.1, 10)
    v = lc.nfw_vmax(rho, rs)
    # the maximum circular velocity of an NFW halo is at 2.163 scale radii: 4 pi G rho rs^2 x 0.2162
    ctx.close(v ** 2, 4 * math.pi * 4.3e-6 * rho * rs ** 2 * 0.21622, "peak circular velocity", rtol=0.02)
    ctx.close(lc.nfw_vmax(rho * k ** 2, rs), v * k, "square root of the density", rtol=1e-9)
    ctx.close(lc.nfw_vmax(rho, rs * k), v * k, "linear in the scale radius", rtol=1e-9)
    s = ctx.real("cross section", 1e-3, 1e4)
    ctx.close(lc.mean_free_path(rho, s) * rho * s, 3.086e21 ** 2 / 1.99e33, "mean free path in kpc", rtol=1e-2)
    m, conc, z = ctx.real("m", 1e6, 1e15), ctx.choice("c", [1.0, 4.5, 30.0]), ctx.real("z", 0.01, 1.99)
    r0, r1, r2 = lc.NFW_params_physical(m, conc, z)
    t = lc.halo_dynamical_time(m, z, conc) * lc.nfw_vmax(r0, r1)
    # kpc/(km/s) in Gyr, once or twice the virial radius (the docstring says twice)
    ctx.eq_or([(t, n * r2 * 0.9778) for n in (1, 2)], "virial crossing time in Gyr", rtol=1e-2)


@harness("two-halo boost: arbitrary correlation function, mass and redshift; three radial ranges")
def boost(ctx):
    c, lc = setup(ctx)
    M = ctx.load("pyHalo.Halos.lens_cosmo")
    f = ctx.fn("two-halo term", lambda r, m, z: 30.0 / (1 + r), lo=0, hi=1e9)
    asked = []

    def term(r, m, z, mdef=None):
        asked.append(mdef)
        return f(r, m, z)
    ctx.patch(M, "twoHaloTerm", term)
    m, z = ctx.real("m", 1e12, 1e15), ctx.real("z", 0.01, 1.99)
    r = ctx.real("r", 0.1, 50)
    ctx.close(lc.twohaloterm(r, m, z), f(r * c.h, m * c.h, z) / c.colossus.rho_m(z), "density excess over the mean, arguments in little-h units", rtol=1e-9)
    lo, hi = ctx.choice("range", [(0.5, 10.0), (1.0, 3.0), (0.1, 40.0)])
    b = lc.two_halo_boost(m, z, rmin=lo, rmax=hi)
    ctx.close((b - 1) * (hi - lo), 2 * ctx.quad(lambda t: f(t * c.h, m * c.h, z), lo, hi) / c.colossus.rho_m(z), "one plus twice the mean excess over the range", rtol=1e-5, atol=1e-9)
    ctx.check(all(a == "200c" for a in asked), "masses are defined at 200 times the critical density")


@harness("self-interaction time scale: inverse in cross section, density to the 3/2 and scale radius, with the documented constant")
def collapse_time(ctx):
    c, lc = setup(ctx)
    rho, rs, s = ctx.real("rho", 1, 1e12), ctx.real("rs", 1e-3, 1e3), ctx.real("cross section", 1e-3, 1e4)
    t = lc.sidm_collapse_timescale(rho, rs, s)
    # 150 / (C sigma rho rs) / sqrt(4 pi G rho), C = 0.75, Gyr
    e = 150 / 0.75 / (2.0889e-10 * s * rho * rs) / ctx.sqrt(4 * math.pi * 4.4985e-6 * rho)
    ctx.close(t, e, "collapse time", rtol=2e-2)
    k = ctx.real("k", 0.1, 10)
    ctx.close(lc.sidm_collapse_timescale(rho, rs, k * s) * k, t, "inverse in the cross section", rtol=1e-9)
    ctx.close(lc.sidm_collapse_timescale(rho, rs * k, s) * k, t, "inverse in the scale radius", rtol=1e-9)
    ctx.close(lc.sidm_collapse_timescale(rho * k ** 2, rs, s) * k ** 3, t, "density to the power minus 3/2", rtol=1e-9)
