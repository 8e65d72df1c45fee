import numpy as np


class Uldm(object):
    def rhotilde(self, kappa_0, theta_c, slope=8):
        return kappa_0 / theta_c * 0.5 * (0.091 * slope) ** 0.5

    def density(self, R, rho0, theta_c, slope=8):
        return rho0 * (1 + 0.091 * (R / theta_c) ** 2) ** -slope

    def density_lens(self, r, kappa_0, theta_c, slope=8):
        return self.density(r, self.rhotilde(kappa_0, theta_c, slope), theta_c, slope)

    def mass_3d(self, R, kappa_0, theta_c, slope=8):
        return 4 * np.pi * self.rhotilde(kappa_0, theta_c, slope) * R ** 3 / 3 * (1 + 0.091 * (R / theta_c) ** 2) ** -1.5

    def mass_3d_lens(self, r, kappa_0, theta_c, slope=8):
        return self.mass_3d(r, kappa_0, theta_c, slope)
