import numpy as np


class NFW(object):
    def density(self, R, Rs, rho0):
        return rho0 / (R / Rs * (1 + R / Rs) ** 2)

    def rho02alpha(self, rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))

    def alpha2rho0(self, alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    def density_lens(self, r, Rs, alpha_Rs):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def mass_3d(self, r, Rs, rho0):
        return 4. * np.pi * rho0 * Rs ** 3 * (np.log((Rs + r) / Rs) - r / (Rs + r))

    def mass_3d_lens(self, r, Rs, alpha_Rs):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def derivatives(self, *a, **k):
        raise NotImplementedError
