import numpy as np
from scipy.special import hyp2f1


class PseudoDoublePowerlaw(object):
    def density(self, R, Rs, rho0, gamma_inner, gamma_outer):
        return rho0 * (R / Rs) ** -gamma_inner * (1 + (R / Rs) ** 2) ** (-(gamma_outer - gamma_inner) / 2)

    def mass_3d(self, r, Rs, rho0, gamma_inner, gamma_outer):
        x = r / Rs
        return 4 * np.pi * rho0 * Rs ** 3 * x ** (3 - gamma_inner) / (3 - gamma_inner) * hyp2f1((3 - gamma_inner) / 2, (gamma_outer - gamma_inner) / 2, (5 - gamma_inner) / 2, -x ** 2)

    def rho02alpha(self, rho0, Rs, gamma_inner, gamma_outer):
        return rho0 * 4. * Rs ** 2 * self._g(gamma_inner, gamma_outer)

    def alpha2rho0(self, alpha_Rs, Rs, gamma_inner, gamma_outer):
        return alpha_Rs / (4. * Rs ** 2 * self._g(gamma_inner, gamma_outer))

    def _g(self, gamma_inner, gamma_outer):
        return 1.0 / (3 - gamma_inner) / (1 + gamma_outer)

    def density_lens(self, r, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer), gamma_inner, gamma_outer)

    def mass_3d_lens(self, r, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer), gamma_inner, gamma_outer)
