"""P10 population amplitudes follow their normalisation laws"""
from symx.api import registry
from harness import world
import numpy as np
HARNESSES, harness = registry()
SUB = "pyHalo.Rendering.subhalos"
LOS = "pyHalo.Rendering.line_of_sight"
TWO = "pyHalo.Rendering.two_halo"
PEAKS = "pyHalo.Rendering.MassFunctions.density_peaks"


class Recorder(object):
    """mass-function model that records what it was asked for"""
    calls = []

    def __init__(self, **kw):
        type(self).calls.append(kw)
        self.first_moment = 0
        self.n_mean = 0

    def draw(self):
        return np.array([])


class Nowhere(object):
    name = "PROJECTEDNFW"

    def draw(self, n, z=None):
        return np.array([]), np.array([]), np.array([])


def recorder():
    return type("Recorder", (Recorder,), {"calls": []})


def subhalos(ctx, kw, zl, ang, cosmo):
    R = recorder()
    lc = world.free_lens_cosmo(ctx, zl, zl + 1.0, cosmo=cosmo)
    g = world.Geo(ctx, cosmo, zl, zl + 1.0, ang)
    S = ctx.get(SUB, "Subhalos")(R, kw, Nowhere(), g, lc)
    S.render()
    ctx.check(len(R.calls) == 1, "one mass function per rendering")
    return R.calls[0]


def base_kw(ctx):
    return dict(power_law_index=ctx.real("slope", -2.5, -1.2), delta_power_law_index=ctx.real("tilt", -0.3, 0.3), m_pivot=10 ** 8,
                log_mlow=6.0, log_mhigh=10.0)


@harness("sigma_sub in [0,1], host mass 10^[11,15] given as host_m200 or log_m_host, lens redshift [0.1,2], slope, tilt, scaling exponents in [0,3] (0 included), opening angle [0.5,20]")
def subhalo_amplitude(ctx):
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    ang = ctx.real("angle", 0.5, 20)
    lm = ctx.real("log_host", 11, 15)
    sig = ctx.real("sigma_sub", 0, 1)
    k1, k2 = ctx.choice("scalings", [(0.88, 1.7), (0.0, 0.0), (1.0, 0.5), (0.55, 0.37)])
    kw = base_kw(ctx)
    kw.update(sigma_sub=sig, host_scaling_factor=k1, redshift_scaling_factor=k2)
    if ctx.flag("log host"):
        kw["log_m_host"] = lm
    else:
        kw["host_m200"] = 10 ** lm
    call = subhalos(ctx, kw, zl, ang, c)
    p = kw["power_law_index"] + kw["delta_power_law_index"]
    ctx.close(call["power_law_index"], p, "slope is the base slope plus the tilt")
    area = ctx.pi * (c.kpc_proper_per_asec(zl) * 0.5 * ang) ** 2
    F = (10 ** lm / 10 ** 13) ** k1 * (zl + 0.5) ** k2
    ctx.observe("normalization", call["normalization"])
    ctx.close(call["normalization"], sig * area * F * (10.0 ** 8) ** (-p - 1), "sigma_sub per area at the pivot, scaled with host mass and redshift", rtol=1e-5)
    # amplitude of the mass function per log mass at the pivot does not depend on the tilt
    ctx.close(call["normalization"] * (10.0 ** 8) ** p * 10.0 ** 8, sig * area * F, "mass function at the pivot mass independent of the tilt", rtol=1e-5)


@harness("documented pivot of the scalings: 10^13 host at z=0.5 gives no rescaling; explicit scaling function for any mass and redshift")
def host_scaling(ctx):
    f = ctx.get(SUB, "host_scaling_function")
    lm = ctx.real("log_host", 11, 15)
    z = ctx.real("z", 0.0, 3)
    k1, k2 = ctx.real("k1", -2, 3), ctx.real("k2", -2, 3)
    v = f(10 ** lm, z, k1, k2)
    ctx.observe("F", v)
    ctx.close(v, 10 ** (k1 * (lm - 13) + k2 * ctx.log10(z + 0.5)), "documented host scaling")
    ctx.close(f(10 ** 13, 0.5, k1, k2), 1, "no scaling for the reference host")
    ctx.close(f(10 ** lm, z), 10 ** (0.88 * (lm - 13) + 1.7 * ctx.log10(z + 0.5)), "default exponents")


@harness("number density given directly (dndA): no host scaling whatever host mass is passed")
def subhalo_direct(ctx):
    c = world.Cosmology(ctx)
    zl = ctx.real("zl", 0.1, 2)
    ang = ctx.real("angle", 0.5, 20)
    d = ctx.real("dndA", 0, 1)
    kw = base_kw(ctx)
    kw["dndA"] = d
    if ctx.flag("host given"):
        kw.update(log_m_host=ctx.real("log_host", 11, 15), host_scaling_factor=0.88, redshift_scaling_factor=1.7)
    call = subhalos(ctx, kw, zl, ang, c)
    p = kw["power_law_index"] + kw["delta_power_law_index"]
    area = ctx.pi * (c.kpc_proper_per_asec(zl) * 0.5 * ang) ** 2
    ctx.close(call["normalization"], d * area * (10.0 ** 8) ** (-p - 1), "density times area at the pivot", rtol=1e-5)


@harness("neither amplitude given: refused")
def subhalo_no_amplitude(ctx):
    c = world.Cosmology(ctx)
    kw = base_kw(ctx)
    kw["host_m200"] = 1e13
    ctx.raises(lambda: subhalos(ctx, kw, 0.5, 6.0, c), label="missing amplitude refused")


def peak_kw(ctx, name, norm, tilt, lo, hi, pivot=10 ** 8):
    kw = dict(m_pivot=pivot, log_mlow=lo, log_mhigh=hi, LOS_normalization=norm, delta_power_law_index=tilt, draw_poisson=False)
    if name != "ShethTormen":
        kw.update(log_mc=7.0, a_wdm=1.0, b_wdm=1.0, c_wdm=-1.3)
    if "Mixed" in name:
        kw["mixed_DM_frac"] = 0.4
    return kw


PK = ["ShethTormen", "ShethTormenTurnover", "ShethTormenMixedWDM"]


def parent_amplitude(o, m, name):
    """differential mass function without the suppression"""
    v = o.evaluate(m)
    return v if name == "ShethTormen" else v / o.turnover(m)


@harness("reference mass function an arbitrary power law of arbitrary amplitude at each redshift; any volume, normalisation in [0,5], tilt; mass range 10^[5,8]..+[0.5,5] decades", budget=120)
def los_amplitude(ctx):
    name = ctx.choice("class", PK)
    M = ctx.load(PEAKS)
    A = ctx.fn("A", lambda z: 3.0 / (1 + z), lo=0.01, hi=100)
    s = ctx.choice("slope", [-1.9, -1.7])
    # colossus works in M_sun/h and (Mpc/h)^-3
    ctx.patch(M, "massFunction", lambda mh, z, q_out=None, model=None: A(z) * mh ** (1 + s))
    c = world.Cosmology(ctx)
    z = ctx.real("z", 0.05, 3)
    g = world.Geo(ctx, c, 0.5, 3.5, 6.0)
    dz = ctx.real("dz", 0.005, 0.05)
    lo = ctx.choice("lo", [6.0, 5.0, 7.5])
    hi = ctx.choice("hi", [10.0, 8.7])
    tilt = ctx.real("tilt", -0.3, 0.3)
    norm = ctx.real("norm", 0, 5)
    kw = peak_kw(ctx, name, norm, tilt, lo, hi)
    o = ctx.get(PEAKS, name).from_redshift(z, dz, g, kw)
    m = 10 ** ctx.real("logm", lo, hi)
    h = c.h
    vol = g.volume_element_comoving(z, dz)
    ref = norm * vol * A(z) * h ** (1 + s) * h ** 3 * m ** s * (m / 10.0 ** 8) ** tilt
    if name == "ShethTormen":
        ctx.observe("dndm", o.evaluate(m))
        ctx.close(o.evaluate(m), ref, "reference mass function times volume times normalisation, tilted about the pivot", rtol=1e-5)
    else:
        ctx.close(o.evaluate(m), ref * o.turnover(m), "reference mass function times volume times normalisation times suppression, tilted about the pivot", rtol=1e-5)
    ctx.check(type(o).__name__ == name, "class of the requested name")


@harness("curved reference mass function (any positive value at each of the ten support masses): amplitude at the pivot does not change with the tilt and is linear in the normalisation", budget=120)
def los_pivot(ctx):
    name = ctx.choice("class", PK)
    M = ctx.load(PEAKS)
    base = ctx.reals("y", 3, 0.01, 100)
    lm0 = 6.0

    def mf(mh, z, q_out=None, model=None):
        ctx.check(len(mh) >= 2, "at least two support masses")
        return np.array([base[0] * 10 ** -i if i == 0 else base[1 if i % 2 else 2] * 10.0 ** (-0.4 * i) for i in range(len(mh))], dtype=object if ctx.symbolic else float)
    ctx.patch(M, "massFunction", mf)
    c = world.Cosmology(ctx)
    g = world.Geo(ctx, c, 0.5, 3.5, 6.0)
    tilt = ctx.real("tilt", -0.3, 0.3)
    norm = ctx.real("norm", 0.01, 5)
    k = ctx.real("k", 0.1, 10)
    pivot = ctx.choice("pivot", [10 ** 8, 10 ** 7])
    C = ctx.get(PEAKS, name)
    z, dz = 0.7, 0.02
    one = C.from_redshift(z, dz, g, peak_kw(ctx, name, norm, 0.0, 6.0, 10.0, pivot))
    two = C.from_redshift(z, dz, g, peak_kw(ctx, name, norm, tilt, 6.0, 10.0, pivot))
    three = C.from_redshift(z, dz, g, peak_kw(ctx, name, k * norm, tilt, 6.0, 10.0, pivot))
    ctx.close(one.evaluate(pivot * 1.0), two.evaluate(pivot * 1.0), "mass function at the pivot mass independent of the tilt", rtol=1e-5)
    m = 10 ** ctx.real("logm", 6, 10)
    ctx.close(two.evaluate(m), one.evaluate(m) * (m / (1.0 * pivot)) ** tilt, "tilt about the pivot", rtol=1e-5)
    ctx.close(three.evaluate(m), k * two.evaluate(m), "linear in the normalisation", rtol=1e-5)


@harness("single-mass objects along the line of sight: mass fraction of the dark matter in the plane's volume; any redshift, fraction, normalisation, mass")
def los_delta(ctx):
    D = ctx.get("pyHalo.Rendering.MassFunctions.delta_function", "DeltaFunction")
    c = world.Cosmology(ctx)
    g = world.Geo(ctx, c, 0.5, 3.5, 6.0)
    z = ctx.real("z", 0.05, 3)
    dz = ctx.real("dz", 0.005, 0.05)
    f = ctx.real("fraction", 0, 1)
    n = ctx.real("norm", 0, 5)
    m = ctx.real("mass", 1e3, 1e8)
    o = D.from_redshift(z, dz, g, dict(LOS_normalization=n, mass_fraction=f, mass=m, draw_poisson=True))
    rho = 0.26 * c.rho_crit(z)
    ctx.observe("n_mean", o.n_mean)
    ctx.close(o.n_mean * m, n * f * rho * g.volume_element_comoving(z, dz), "mass fraction of the dark matter in the plane", rtol=1e-5, atol=1e-12)


class LosRecorder(object):
    calls = []

    @classmethod
    def from_redshift(cls, z, dz, geometry, kw):
        cls.calls.append((z, dz, geometry, kw))
        return Recorder()


@harness("every plane asks the mass function for its own redshift and thickness; mass limits constant or functions of redshift; three planes at symbolic redshifts")
def los_planes(ctx):
    C = ctx.get(LOS, ctx.choice("class", ["LineOfSight", "LineOfSightNoSheet"]))
    R = type("R", (LosRecorder,), {"calls": []})
    c = world.Cosmology(ctx)
    zs = ctx.reals("z", 3, 0.01, 3)
    dz = ctx.reals("dz", 3, 0.001, 0.1)
    g = world.Geo(ctx, c, 0.5, 3.5, 6.0)
    lo, hi = ctx.real("lo", 4, 8), ctx.real("hi", 8, 11)
    norm = ctx.real("norm", 0, 5)
    variable = ctx.flag("variable limits")
    kw = dict(log_mlow=(lambda z: lo + z) if variable else lo, log_mhigh=(lambda z: hi - 0.1 * z) if variable else hi, LOS_normalization=norm, m_pivot=10 ** 8)

    class Uni(object):
        name = "LENS_CONE_UNIFORM"

        def draw(self, n, z):
            return np.array([]), np.array([])
    o = C(R, kw, Uni(), g, world.free_lens_cosmo(ctx, 0.5, 3.5, cosmo=c), zs, dz)
    o.render()
    ctx.check(len(R.calls) == 3, "every plane is rendered once")
    for i, (z, d, gg, k) in enumerate(R.calls):
        ctx.close(z, zs[i], "redshift of the plane")
        ctx.close(d, dz[i], "thickness of the plane")
        ctx.close(k["LOS_normalization"], norm, "line-of-sight normalisation unchanged", atol=1e-12)
        ctx.close(k["log_mlow"], lo + z if variable else lo, "minimum mass at the plane")
        ctx.close(k["log_mhigh"], hi - 0.1 * z if variable else hi, "maximum mass at the plane")
    ctx.check("draw_poisson" in R.calls[0][3] and R.calls[0][3]["draw_poisson"] is True, "Poisson noise by default")


@harness("two-halo term: arbitrary two-halo profile of distance; boost is twice the mean excess between 0.5 Mpc (or the slice) and the slice depth, times the scale factor; with and without the inner correction; only at the lens plane", budget=120)
def two_halo(ctx):
    c = world.Cosmology(ctx)
    zl, zs = 0.5, 1.5
    lc = world.free_lens_cosmo(ctx, zl, zs, cosmo=c)
    tw = ctx.fn("twohalo", lambda r, m, z: 2.0 / (1 + r), lo=0, hi=100)
    ctx.patch(lc, "twohaloterm", lambda r, m, z, mdef="200c": tw(r, m, z))
    g = world.Geo(ctx, c, zl, zs, 6.0)
    M = ctx.load(TWO)

    class Conc(object):
        def __init__(self, *a, **k):
            pass

        def nfw_concentration(self, m, z):
            return 5.0
    ctx.patch(M, "ConcentrationDiemerJoyce", Conc)
    R = type("R", (LosRecorder,), {"calls": []})
    lazar = ctx.flag("lazar")
    scale = ctx.real("scale", 0, 3)
    norm = ctx.real("norm", 0, 5)
    lm = ctx.choice("log host", [13.0, 12.0])
    kw = dict(log_mlow=6.0, log_mhigh=10.0, LOS_normalization=norm, m_pivot=10 ** 8)
    kw["log_m_host" if ctx.flag("log") else "host_m200"] = lm if "log_m_host" in kw else None
    if "log_m_host" in kw:
        kw["log_m_host"] = lm
    else:
        kw["host_m200"] = 10 ** lm
    planes = [0.48, 0.5, 0.52]
    dz = [0.02, 0.02, 0.03]

    class Uni(object):
        name = "LENS_CONE_UNIFORM"

        def draw(self, n, z):
            return np.array([]), np.array([])
    o = M.TwoHaloContribution(R, kw, Uni(), g, lc, planes, dz, lazar, scale)
    o.render()
    ctx.check(len(R.calls) == 1, "rendered on one plane only")
    z, d, gg, k = R.calls[0]
    ctx.close(z, zl, "the main deflector's plane")
    ctx.close(d, 0.02, "with its thickness")
    rmax = c.Dc(zl + 0.02) - c.Dc(zl)
    m = 10.0 ** lm
    r200 = (3 * m / (4 * ctx.pi * 200 * world_rhoc(ctx, c, zl))) ** (1.0 / 3)

    def f(r):
        v = tw(r, m, zl)
        if lazar:
            v = v + 0.1 * (r / r200 / 5) ** -4.0
        return v
    rmin = 0.5
    boost = 2 * ctx.quad(f, rmin, rmax) / (rmax - rmin) * scale
    ctx.observe("norm", k["LOS_normalization"])
    ctx.close(k["LOS_normalization"], norm * boost, "normalisation is the mean excess times the requested one", rtol=1e-4, atol=1e-9)
    ctx.close(kw["LOS_normalization"], norm, "the caller's keywords are left alone", atol=1e-12)


def world_rhoc(ctx, c, z):
    """physical critical density in M_sun / Mpc^3, from the value used by the NFW parameter class"""
    return 2.77536627e11 * c.E(z) ** 2 * c.h ** 2


@harness("two-halo term without a host mass: refused")
def two_halo_no_host(ctx):
    M = ctx.load(TWO)
    c = world.Cosmology(ctx)
    kw = dict(log_mlow=6.0, log_mhigh=10.0, LOS_normalization=1.0)
    ctx.raises(lambda: M.TwoHaloContribution(LosRecorder, kw, None, world.Geo(ctx, c, 0.5, 1.5, 6.0), world.free_lens_cosmo(ctx, 0.5, 1.5, cosmo=c), [0.5], [0.02]), label="missing host mass refused")
