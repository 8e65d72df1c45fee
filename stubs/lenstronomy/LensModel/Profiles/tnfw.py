import numpy as np


class TNFW(object):
    def density(self, r, Rs, rho0, r_trunc):
        return (r_trunc ** 2 * (r_trunc ** 2 + r ** 2) ** -1) * rho0 / (r / Rs * (1 + r / Rs) ** 2)

    def rho02alpha(self, rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))

    def alpha2rho0(self, alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    def density_lens(self, r, Rs, alpha_Rs, r_trunc):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc)

    def mass_3d(self, r, Rs, rho0, r_trunc):
        # as in lenstronomy, the last argument is the truncation radius in units of Rs
        x = r * Rs ** -1
        t = r_trunc
        func = t ** 2 * (t ** 2 + 1) ** -2 * ((t ** 2 - 1) * np.log(1 + x) + 2 * t * np.arctan(x / t) - (t ** 2 + 1) * x / (1 + x)
                                              - 0.5 * (t ** 2 - 1) * np.log(1 + x ** 2 / t ** 2))
        return 4 * np.pi * Rs ** 3 * rho0 * func

    def mass_3d_lens(self, r, Rs, alpha_Rs, r_trunc):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc / Rs)

    def hessian(self, *a, **k):
        raise NotImplementedError

    def derivatives(self, *a, **k):
        raise NotImplementedError
