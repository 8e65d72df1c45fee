import numpy as np


class Gaussian(object):
    def density(self, r, amp, sigma_x, sigma_y=None):
        return amp / (2 * np.pi * sigma_x ** 2) ** 1.5 * np.exp(-r ** 2 / 2 / sigma_x ** 2)
