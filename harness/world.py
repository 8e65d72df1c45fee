"""Stand-in environment shared by the harnesses: an arbitrary flat expanding cosmology.

Distances, expansion rate and ages are uninterpreted functions restricted to their physical shape (positive, monotone);
the angular-diameter relations of a flat universe and the documented units are kept.
"""
import math
import numpy as np

ARCSEC = 2 * math.pi / 360 / 3600


def _E(z):
    return math.sqrt(0.309 * (1 + z) ** 3 + 0.691)


def _Dc(z):
    n = 64
    h = float(z) / n
    return 4441.37 * h * sum(1.0 / _E((i + 0.5) * h) for i in range(n))


def _age(z):
    # flat LCDM age in Gyr
    return 14.486 * 2 / (3 * math.sqrt(0.691)) * math.asinh(math.sqrt(0.691 / 0.309) * (1 + float(z)) ** -1.5)


class Value(object):
    def __init__(self, v):
        self.value = v


class Astropy(object):
    Om0, Ob0 = 0.309, 0.049
    H0 = Value(67.5)
    h = 0.675

    def __init__(self, w):
        self.w = w
        self.hubble_distance = Value(4441.37)

    def efunc(self, z):
        return self.w.E(z) if np.ndim(z) == 0 else np.array([self.w.E(q) for q in z])

    def Odm(self, z):
        return 0.26

    def Om(self, z):
        return 0.309 * (1 + z) ** 3 / self.efunc(z) ** 2

    def Ob(self, z):
        return 0.049 * (1 + z) ** 3 / self.efunc(z) ** 2

    def critical_density(self, z):
        # g / cm^3
        if not hasattr(z, "t") and z == 0:
            import astropy.units as un
            return 8.558e-30 * un.g / un.cm ** 3
        return Value(8.558e-30 * self.efunc(z) ** 2)

    def comoving_transverse_distance(self, z):
        return Value(self.w.Dc(z))
    comoving_distance = comoving_transverse_distance

    def angular_diameter_distance_z1z2(self, a, b):
        return Value((self.w.Dc(b) - self.w.Dc(a)) / (1 + b))

    def angular_diameter_distance(self, z):
        return Value(self.w.Dc(z) / (1 + z))

    def arcsec_per_kpc_proper(self, z):
        return Value(1.0 / (1000.0 * ARCSEC * self.w.Dc(z) / (1 + z)))

    def age(self, z):
        return Value(self.w.age(z))


class Cosmology(object):
    """the interface of pyHalo.Cosmology.cosmology.Cosmology with exact (uncached, uninterpolated) answers"""
    M_sun = 1.98847 * 10 ** 30
    Mpc = 3.08567758 * 10 ** 22
    arcsec = ARCSEC
    G = 6.67384 * 10 ** (-11) * Mpc ** -3 * M_sun
    c = 299792458 * Mpc ** -1
    density_to_MsunperMpc = 0.001 * M_sun ** -1 * (100 ** 3) * Mpc ** 3
    h = 0.675

    def __init__(self, ctx, free=True):
        self.ctx = ctx
        f = ctx.fn if free else lambda name, conc, **k: conc
        self.Dc = f("Dc", _Dc, mono="inc", lo=0, ax=lambda d, z: [d >= 700 * z, d <= 4441.37 * z])
        self.E = f("E", _E, mono="inc", lo=1)
        self.age = f("age", _age, mono="dec", lo=0)
        self.astropy = Astropy(self)
        self._colossus_cosmo = self.colossus = Colossus()

    def D_C_transverse(self, z):
        return self.Dc(z)
    D_C_z = D_C_transverse

    def D_A(self, a, b):
        return (self.Dc(b) - (self.Dc(a) if not (not hasattr(a, "t") and a == 0) else 0)) / (1 + b)

    def D_A_z(self, z):
        return self.Dc(z) / (1 + z)

    def kpc_proper_per_asec(self, z):
        return 1000.0 * ARCSEC * self.Dc(z) / (1 + z)

    def scale_factor(self, z):
        return 1 / (1 + z)

    def E_z(self, z):
        return self.E(z)

    def rho_crit(self, z):
        return 8.558e-30 * self.E(z) ** 2 * self.density_to_MsunperMpc

    @property
    def rho_dark_matter_crit(self):
        return 0.26 * 8.558e-30 * self.density_to_MsunperMpc

    def halo_age(self, z, zform=10):
        if bool(z > zform):
            return 0.0
        return self.age(z) - self.age(zform)


class Colossus(object):
    def rho_m(self, z):
        return 85.0 * (1 + z) ** 3


def lens_cosmo(ctx, zl=0.5, zs=1.5, infall="HYBRID_INFALL", kw=None, cosmo=None):
    """a real LensCosmo on the stand-in cosmology (lens and source redshift concrete)"""
    C = ctx.get("pyHalo.Halos.lens_cosmo", "LensCosmo")
    return C(zl, zs, cosmo or Cosmology(ctx), infall, kw if kw is not None else {"log_m_host": 13.0})


def free_lens_cosmo(ctx, zl, zs, infall=None, kw=None, cosmo=None):
    """a real LensCosmo without the set-up that needs concrete redshifts"""
    C = ctx.get("pyHalo.Halos.lens_cosmo", "LensCosmo")
    lc = C(None, None, cosmo or Cosmology(ctx), None, {})
    lc.z_lens, lc.z_source = zl, zs
    lc.D_d, lc.D_s, lc.D_ds = lc.cosmo.D_A_z(zl), lc.cosmo.D_A_z(zs), lc.cosmo.D_A(zl, zs)
    lc.sigma_crit_lensing = lc.get_sigma_crit_lensing(zl, zs)
    lc.sigma_crit_lens_kpc = lc.sigma_crit_lensing * (0.001) ** 2
    lc.sigmacrit = lc.sigma_crit_lens_kpc * lc.cosmo.kpc_proper_per_asec(zl) ** 2
    if infall is not None:
        lc.setup_infall_model(infall, kw or {})
    return lc


class Geo(object):
    """stand-in rendering geometry: arbitrary positive scale and area per plane"""

    def __init__(self, ctx, cosmo, zl, zs, angle):
        self.cosmo = cosmo
        self._zlens, self._zsource = zl, zs
        self.cone_opening_angle = angle
        self.volume_type = "DOUBLE_CONE"
        self._rs = ctx.fn("rendering_scale", lambda z: 1.0 if z <= 0.5 else 0.6, lo=0, hi=1, lo_strict=True)
        self._vol = ctx.fn("volume", lambda z, d, r=0: 10.0 * d * (1 + z), lo=0, lo_strict=True)

    def rendering_scale(self, z):
        return self._rs(z)

    def kpc_per_arcsec(self, z):
        return self.cosmo.kpc_proper_per_asec(z)

    def angle_to_physicalradius(self, r, z):
        return r * ARCSEC * self._rs(z) * self.cosmo.D_A_z(z)

    def angle_to_comovingradius(self, r, z):
        return self.angle_to_physicalradius(r, z) * (1 + z)

    def angle_to_physical_area(self, r, z):
        return math.pi * self.angle_to_physicalradius(r, z) ** 2

    def angle_to_comoving_area(self, r, z):
        return math.pi * self.angle_to_comovingradius(r, z) ** 2

    def volume_element_comoving(self, z, dz, radius=None):
        r = 0.5 * self.cone_opening_angle if radius is None else radius
        return self._vol(z, dz, r)
