import numpy as np


class PseudoJaffe(object):
    def density(self, r, rho0, Ra, Rs):
        return rho0 / ((1 + (r / Ra) ** 2) * (1 + (r / Rs) ** 2))

    def rho2sigma(self, rho0, Ra, Rs):
        return np.pi * rho0 * Ra * Rs / (Rs + Ra)

    def sigma2rho(self, sigma0, Ra, Rs):
        return (Ra + Rs) / Ra / Rs / np.pi * sigma0

    def mass_3d(self, r, rho0, Ra, Rs):
        return 4 * np.pi * Ra ** 2 * Rs ** 2 / (Rs ** 2 - Ra ** 2) * rho0 * (Rs * np.arctan(r / Rs) - Ra * np.arctan(r / Ra))
