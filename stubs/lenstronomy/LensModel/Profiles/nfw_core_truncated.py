import numpy as np


class TNFWC(object):
    def density(self, r, Rs, rho0, r_core, r_trunc):
        return rho0 * Rs ** 3 * (r_trunc ** 2 / (r_trunc ** 2 + r ** 2)) / (np.sqrt(r ** 2 + r_core ** 2) * (r ** 2 + Rs ** 2))

    def alpha2rho0(self, alpha_Rs, Rs, r_core, r_trunc):
        return alpha_Rs / (4. * Rs ** 2 * self._g(Rs, r_core, r_trunc))

    def rho02alpha(self, rho0, Rs, r_core, r_trunc):
        return rho0 * 4. * Rs ** 2 * self._g(Rs, r_core, r_trunc)

    def _g(self, Rs, r_core, r_trunc):
        return 1.0 / (1 + r_core / Rs) / (1 + Rs / r_trunc)

    def density_lens(self, r, Rs, alpha_Rs, r_core, r_trunc):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc)

    def hessian(self, *a, **k):
        raise NotImplementedError

    def derivatives(self, *a, **k):
        raise NotImplementedError
