import numpy as np


class CNFW(object):
    def density(self, R, Rs, rho0, r_core):
        M0 = 4 * np.pi * rho0 * Rs ** 3
        return (M0 / 4 / np.pi) * ((r_core + R) * (R + Rs) ** 2) ** -1

    def alpha2rho0(self, alpha_Rs, Rs, r_core):
        return alpha_Rs / (4. * Rs ** 2 * self._g1(Rs, r_core))

    def rho02alpha(self, rho0, Rs, r_core):
        return rho0 * 4. * Rs ** 2 * self._g1(Rs, r_core)

    _alpha2rho0 = alpha2rho0

    def _g1(self, Rs, r_core):
        return 1. + np.log(0.5) + 0 * r_core

    def density_lens(self, R, Rs, alpha_Rs, r_core):
        return self.density(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def _mf(self, x, b):
        # int_0^x s^2 / ((b + s)(1 + s)^2) ds
        return (b ** 2 * np.log(1 + x / b) + (1 - 2 * b) * np.log(1 + x)) / (1 - b) ** 2 - x / ((1 + x) * (1 - b))

    def mass_3d(self, R, Rs, rho0, r_core):
        return 4 * np.pi * rho0 * Rs ** 3 * self._mf(R / Rs, r_core / Rs)

    def mass_3d_lens(self, R, Rs, alpha_Rs, r_core):
        return self.mass_3d(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def mass_2d(self, R, Rs, rho0, r_core):
        return 1.5 * self.mass_3d(R, Rs, rho0, r_core)

    def density_2d(self, x, y, Rs, rho0, r_core, center_x=0, center_y=0):
        raise NotImplementedError("supplied by the harness")
