import numpy as np
from scipy.special import hyp2f1


class SPLCORE(object):
    def density(self, r, rho0, r_core, gamma):
        return rho0 * r_core ** gamma / (r_core ** 2 + r ** 2) ** (gamma / 2)

    def density_lens(self, r, sigma0, r_core, gamma):
        return self.density(r, sigma0 / r_core, r_core, gamma)

    def density_2d(self, x, y, rho0, r_core, gamma):
        raise NotImplementedError

    def mass_3d(self, r, rho0, r_core, gamma):
        return 4 * np.pi * rho0 * r ** 3 / 3 * hyp2f1(1.5, gamma / 2, 2.5, -(r / r_core) ** 2)

    def mass_3d_lens(self, r, sigma0, r_core, gamma):
        return self.mass_3d(r, sigma0 / r_core, r_core, gamma)
