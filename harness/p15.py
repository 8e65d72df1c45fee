"""P15 cosmological queries do not depend on the history of earlier queries"""
from symx.api import registry
from harness import world
import numpy as np
HARNESSES, harness = registry()


class Q(object):
    def __init__(self, v):
        self.value = v


class Background(object):
    """an expanding flat universe with closed-form distances and ages, playing the underlying (astropy) cosmology"""
    h = 0.675
    Om0, Ob0 = 0.309, 0.049

    def __init__(self, k=1.0):
        self.k = k
        self.H0 = Q(67.5)

    def dc(self, z):
        return 4300.0 * self.k * z / (1.0 + 0.45 * z)

    def comoving_transverse_distance(self, z):
        return Q(self.dc(z))
    comoving_distance = comoving_transverse_distance

    def angular_diameter_distance_z1z2(self, a, b):
        return Q((self.dc(b) - self.dc(a)) / (1 + b))

    def angular_diameter_distance(self, z):
        return Q(self.dc(z) / (1 + z))

    def arcsec_per_kpc_proper(self, z):
        return Q((1 + z) / (1000.0 * world.ARCSEC * self.dc(z)))

    def age(self, z):
        return Q(13.0 * self.k / (1 + z))

    def efunc(self, z):
        return 1.0 + 0.5 * self.k * z

    def critical_density(self, z):
        return Q(9e-30 * self.k * self.efunc(z) ** 2)

    def Odm(self, z):
        return 0.26 * self.k


def one(z):
    return [z]


# query -> (number of redshift arguments, call, exact value)
QUERIES = {
    "D_A": (2, lambda c, a, b: c.D_A(a, b), lambda g, a, b: (g.dc(b) - g.dc(a)) / (1 + b)),
    "D_A_z": (1, lambda c, a: c.D_A_z(a), lambda g, a: g.dc(a) / (1 + a)),
    "D_C_z": (1, lambda c, a: c.D_C_z(a), lambda g, a: g.dc(a)),
    "D_C_transverse": (1, lambda c, a: c.D_C_transverse(a), lambda g, a: g.dc(a)),
    "kpc_proper_per_asec": (1, lambda c, a: c.kpc_proper_per_asec(a), lambda g, a: 1000.0 * world.ARCSEC * g.dc(a) / (1 + a)),
    "halo_age": (2, lambda c, a, b: c.halo_age(a, zform=b), None),
    "E_z": (1, lambda c, a: c.E_z(a), lambda g, a: g.efunc(a)),
    "rho_crit": (1, lambda c, a: c.rho_crit(a), lambda g, a: 9e-30 * g.k * g.efunc(a) ** 2 * 0.001 / 1.98847e30 * 1e6 * 3.08567758e22 ** 3),
    "scale_factor": (1, lambda c, a: c.scale_factor(a), lambda g, a: 1 / (1 + a)),
}
CACHED = ["D_A", "D_A_z", "D_C_z", "kpc_proper_per_asec", "halo_age"]


def new(ctx, k=1.0):
    C = ctx.get("pyHalo.Cosmology.cosmology", "Cosmology")
    g = Background(k)
    return C(astropy_instance=g), g


def ask(c, name, za, zb):
    n, f, _ = QUERIES[name]
    return f(c, za) if n == 1 else f(c, za, zb)


def pair(ctx, i, lo=0.002, hi=3.9):
    a = ctx.real("z%d" % i, lo, hi)
    return a, ctx.real("later z%d" % i, lo, hi)


@harness("any two queries of any kinds at any redshifts between 0.002 and 3.9, equal or at least 1e-6 apart, on one cosmology, against the second query on a new one", max_paths=1500, budget=120)
def history(ctx):
    q1 = ctx.choice("first", CACHED)
    q2 = ctx.choice("second", CACHED)
    a, b = pair(ctx, 1), pair(ctx, 2)
    # the same redshift, or one that differs by more than rounding
    ctx.assume((a[0] == b[0]) | (ctx.abs(a[0] - b[0]) >= 1e-6))
    c, _ = new(ctx)
    fresh, _ = new(ctx)
    u = ask(c, q1, *a)
    v = ask(c, q2, *b)
    ctx.close(v, ask(fresh, q2, *b), "%s does not depend on what was asked before" % q2, rtol=1e-9, atol=1e-12)
    ctx.close(ask(c, q1, *a), u, "asked again, the same answer", rtol=1e-9, atol=1e-12)
    ctx.close(u, ask(fresh, q1, *a), "%s does not depend on what was asked before" % q1, rtol=1e-9, atol=1e-12)
    ctx.observe("value", v)


@harness("two different cosmologies asked alternately, any query, any redshift", max_paths=400)
def two_universes(ctx):
    q = ctx.choice("query", CACHED + ["rho_crit"])
    a = pair(ctx, 1)
    c, _ = new(ctx)
    d, _ = new(ctx, 0.5)
    u, v = ask(c, q, *a), ask(d, q, *a)
    c2, _ = new(ctx)
    d2, _ = new(ctx, 0.5)
    ctx.close(v, ask(d2, q, *a), "the answer is that of the queried cosmology", rtol=1e-9, atol=1e-12)
    ctx.close(u, ask(c2, q, *a), "the answer is that of the queried cosmology", rtol=1e-9, atol=1e-12)


@harness("exact queries: separation of two planes, transverse distance, expansion rate, critical density, scale factor, at any redshift up to 20")
def exact(ctx):
    q = ctx.choice("query", ["D_A", "D_C_transverse", "E_z", "rho_crit", "scale_factor"])
    c, g = new(ctx)
    a, b = pair(ctx, 1, 0.0, 20.0)
    n, f, t = QUERIES[q]
    z = (a, b)[:n]
    ctx.close(f(c, *z), t(g, *z), "%s is the value of the underlying cosmology in the documented unit" % q, rtol=1e-9, atol=1e-300)


@harness("distances and angular scales at redshifts in windows covering the low end, the tabulated range and its upper end, scalar or array argument", max_paths=800)
def accuracy(ctx):
    ctx.exact_tables()
    q = ctx.choice("query", ["D_A_z", "D_C_z", "kpc_proper_per_asec"])
    c, g = new(ctx)
    lo, hi = ctx.choice("window", [(0.001, 0.0199), (0.0201, 0.06), (0.1, 0.16), (0.48, 0.52), (1.0, 1.06), (2.4, 2.45), (3.95, 3.99), (4.0, 4.3), (6.0, 9.0)])
    if q == "kpc_proper_per_asec" and (hi > 4 or hi < 0.02):
        return
    z = ctx.real("z", lo, hi)
    n, f, t = QUERIES[q]
    tol = 2e-2 if hi < 0.1 else 6e-3          # the tables are linear in steps of 0.02 to 0.025
    if ctx.flag("array"):
        w = ctx.real("z'", lo, hi)
        v = f(c, np.array([z, w]))
        ctx.close(v[0], t(g, z), "%s of an array, element by element" % q, rtol=tol)
        ctx.close(v[1], t(g, w), "%s of an array, element by element" % q, rtol=tol)
        return
    v = f(c, z)
    ctx.close(v, t(g, z), "%s is the value of the underlying cosmology" % q, rtol=tol)
    ctx.observe("value", v)
    if q == "kpc_proper_per_asec":
        ctx.close(v * g.arcsec_per_kpc_proper(z).value, 1.0, "the angular scale is the inverse of arcsec per kpc", rtol=tol)
    if q == "D_C_z":
        ctx.close(v, c.D_A_z(z) * (1 + z), "comoving and angular-diameter distances agree", rtol=1e-2)
    if q == "D_A_z":
        ctx.close(v, c.D_A(0, z), "distance from the observer", rtol=tol)


@harness("age of a halo: any observation redshift and formation redshift in windows up to 19, default formation redshift", max_paths=800)
def age(ctx):
    ctx.exact_tables()
    c, g = new(ctx)
    lo, hi = ctx.choice("observed", [(0.0, 0.1), (0.45, 0.6), (2.9, 3.0), (9.9, 10.1)])
    z = ctx.real("z", lo, hi)
    w = ctx.choice("formed", [None, (0.0, 0.1), (0.5, 0.65), (9.9, 10.1), (18.9, 19.0)])
    if w is None:
        v, zf = c.halo_age(z), 10
    else:
        zf = ctx.real("formation", *w)
        v = c.halo_age(z, zform=zf)
    if bool(z > zf):
        ctx.close(v, 0.0, "not yet formed: age zero", atol=1e-12)
        return
    # the age is tabulated every 0.08 in redshift: the result is at most 0.03 Gyr away
    ctx.close(v, g.age(z).value - g.age(zf).value, "time between formation and observation in Gyr", rtol=1e-6, atol=0.03)
    ctx.le(0, v, "never negative")
    ctx.observe("age", v)


@harness("cosmological parameters given as keywords reach both back ends; defaults for those not given; the caller's keywords unchanged")
def parameters(ctx):
    C = ctx.get("pyHalo.Cosmology.cosmology", "Cosmology")
    kw = {}
    for k, v in (("H0", 71.0), ("Om0", 0.25), ("Ob0", 0.04)):
        if ctx.flag(k):
            kw[k] = v
    given = dict(kw)
    c = C(cosmo_kwargs=kw)
    ctx.check(kw == given, "caller's keywords unchanged")
    d = C()
    for k, a in (("H0", lambda o: o.astropy.H0.value), ("Om0", lambda o: o.astropy.Om0), ("Ob0", lambda o: o.astropy.Ob0)):
        ctx.close(a(c), given.get(k, a(d)), "%s as requested" % k, rtol=1e-12)
    e = C(cosmo_kwargs=kw)
    col = e.colossus
    ctx.close(col.H0, e.astropy.H0.value, "both back ends use the same Hubble constant", rtol=1e-9)
    ctx.close(col.Om0, e.astropy.Om0, "both back ends use the same matter density", rtol=1e-9)
    ctx.close(col.Ob0, e.astropy.Ob0, "both back ends use the same baryon density", rtol=1e-9)
    ctx.close(e.h, e.astropy.H0.value / 100, "little h", rtol=1e-9)
