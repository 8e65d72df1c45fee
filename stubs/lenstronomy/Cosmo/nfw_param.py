import numpy as np


class NFWParam(object):
    """stand-in for lenstronomy.Cosmo.nfw_param.NFWParam (masses in M_sun/h, lengths in Mpc/h, densities in h^2 M_sun/Mpc^3)"""
    rhoc = 2.77536627e11

    def __init__(self, cosmo=None):
        self.cosmo = cosmo

    def rhoc_z(self, z):
        return self.rhoc * self.cosmo.efunc(z) ** 2

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1. / 3.)

    def M200(self, rs, rho0, c):
        return 4 * np.pi * rho0 * rs ** 3 * (np.log(1. + c) - c / (1. + c))

    def rho0_c(self, c, z):
        return 200. / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1 + c) - c / (1 + c))
