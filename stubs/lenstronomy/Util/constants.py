import numpy as np
G = 6.67384 * 10 ** (-11)
c = 299792458
M_sun = 1.9891 * 10 ** 30
Mpc = 3.08567758 * 10 ** 22
arcsec = 2 * np.pi / 360 / 3600
