"""P25 core collapse: mass bins, probabilities, collapse times and dimensionless ages"""
from symx.api import registry
from harness import world, halos, fakes
import numpy as np
HARNESSES, harness = registry()
X = "pyHalo.realization_extensions"
TNFW = "lenstronomy.LensModel.Profiles.tnfw"


def draws(ctx, n0, n, eligible):
    """uniform random numbers used for each halo: one for all halos, or one for the eligible ones"""
    u = []
    for kind, par, v in ctx.rng.log[n0:]:
        u += list(np.ravel(np.array(v, dtype=object)))
    if len(u) == n:
        return u
    if len(u) == len(eligible):
        return [u[eligible.index(i)] if i in eligible else None for i in range(n)]
    ctx.check(len(u) >= len(eligible), "one random number per halo")
    ctx.gap("random numbers not attributable to halos")


BINS = {"two adjacent": [[6, 8], [8, 10]], "gap": [[6, 7], [9, 10]], "one": [[7, 9]], "none": []}


@harness("one or two halos of any mass 1e5 to 1e11 and any kind and profile; one, two or no mass bins with edges, gaps; any probabilities, constant or depending on the halo; every random number", prove_ms=10000)
def selection(ctx):
    n = ctx.choice("halos", [1, 2])
    ranges = {True: ctx.choice("subhalo bins", sorted(BINS)), False: None}
    ranges[False] = {"two adjacent": "gap", "gap": "one", "one": "none", "none": "two adjacent"}[ranges[True]]
    func = ctx.flag("probability depends on the halo")
    hs, prob, pf = [], {}, []
    F = ctx.fn("probability of a halo", lambda k, i: 0.2 + 0.1 * i + 0.15 * k, lo=0, hi=1)
    for i in range(n):
        m = ctx.real("m%d" % i, 1e5, 1e11)
        sub = ctx.flag("subhalo %d" % i) if i == 0 else True
        mdef = ctx.choice("profile %d" % i, ["TNFW", "PT_MASS", "NFW"]) if n == 1 else "TNFW"
        hs.append(fakes.FakeHalo("t%d" % i, m, 0.1, 0.2, 0.5, sub=sub, mdef=mdef))
    given, value = {}, {}
    for sub in (True, False):
        b = BINS[ranges[sub]]
        value[sub] = [ctx.real("p%s%d" % ("sf"[not sub], k), 0, 1) for k in range(len(b))]
        given[sub] = [(lambda h, k=k, s=sub: F(k + 2 * s, int(h.unique_tag[1:]))) if func else value[sub][k] for k in range(len(b))]

    class R(object):
        halos = hs
    ext = ctx.get(X, "RealizationExtensions")(R())
    n0 = len(ctx.rng.log)
    out = ext.core_collapse_by_mass([list(x) for x in BINS[ranges[True]]], [list(x) for x in BINS[ranges[False]]], given[True], given[False])
    out = [int(i) for i in out]
    ctx.check(len(set(out)) == len(out) and all(0 <= i < n for i in out), "indexes of halos, each at most once")
    # random numbers
    u = draws(ctx, n0, n, [i for i in range(n) if hs[i].mdef == "TNFW"])
    for i, h in enumerate(hs):
        if h.mdef != "TNFW":
            ctx.check(i not in out, "only truncated NFW halos collapse")
            continue
        inside = False
        for k, (lo, hi) in enumerate(BINS[ranges[h.is_subhalo]]):
            if bool(h.mass >= 10 ** lo) and bool(h.mass < 10 ** hi):
                inside = True
                p = F(k + 2 * h.is_subhalo, i) if func else value[h.is_subhalo][k]
                if i in out:
                    ctx.le(u[i], p, "selected with the probability of the bin")
                else:
                    ctx.le(p, u[i], "selected with the probability of the bin")
        if not inside:
            ctx.check(i not in out, "halos outside every bin of their kind do not collapse")
    ctx.observe("n", len(out))


def populate(ctx, lc, kinds, masses):
    out = []
    for i, k in enumerate(kinds):
        sub = k.endswith("sub")
        h = halos.make(ctx, k.split()[0], lc, 0.1 * i, -0.2, 0.5 if sub else (0.25, 1.25)[i % 2], masses[i], sub, tag=0.1 * (i + 1))
        if sub:
            h.set_infall_redshift((1.5, 3.0, 11.0)[i])
            h.set_bound_mass(0.25 * masses[i])
        out.append(h)
    return out


def ages(ctx, c):
    A = ctx.fn("halo age", lambda z, zform: 0.0 if z > zform else 12.0 / (1 + z) - 12.0 / (1 + zform), lo=0, hi=14)
    ctx.patch(c, "halo_age", lambda z, zform=10: A(z, zform))
    ctx.patch(ctx.get(TNFW, "TNFW"), "mass_3d", M3(ctx))
    return A


class M3(object):
    """enclosed mass of the truncated profile: positive"""

    def __new__(cls, ctx):
        f = ctx.fn("mass_3d", lambda r, Rs, rho, rt: rho * Rs ** 3 * r / (1 + r), lo=1e2, hi=1e12)
        return lambda self, r, Rs, rho0, r_trunc, *a: f(r, Rs, rho0, r_trunc)


def age(A, h, lam):
    if not h.is_subhalo:
        return A(h.z, 10)
    zi = min(h.z_infall, 10)
    return A(zi, 10) + lam * A(h.z, zi)


def verdict(ctx, old, new, t, u, cut, p, label):
    """a halo collapses if it is old enough and the random number is not above the probability; otherwise it stays as it is"""
    ctx.close(new.t_over_tc, t, label + ": dimensionless age", rtol=1e-6)
    t = new.t_over_tc
    if new is old:
        if u is None:
            ctx.le(t, cut + 1e-9, label + ": halo old enough collapses")
        else:
            ctx.check(ctx.implies(t > cut + 1e-9, u >= p), label + ": halo old enough collapses with the given probability")
    else:
        ctx.le(cut, t + 1e-9, label + ": younger halo does not collapse")
        if u is not None:
            ctx.le(u, p, label + ": halo old enough collapses with the given probability")


def attribute(ctx, hs, new, rands, cut):
    """the random number that decided about each halo"""
    idx = [i for i, h in enumerate(hs) if h.mdef == "TNFW"]
    old = idx if len(rands) == len(idx) else [i for i in idx if new[i] is not hs[i] or bool(new[i].t_over_tc >= cut)]
    if len(rands) != len(old):
        ctx.check(len(rands) > len(old), "one random number per old halo")
        ctx.gap("random numbers not attributable to halos")
    return {i: v for i, v in zip(old, rands)}


@harness("one halo of fixed mass, subhalo or field: any collapse time, subhalo time scaling, ages, threshold, probability and random number; evolving, parametric and composite profiles; collapse time given or age over collapse time given", prove_ms=10000)
def single(ctx):
    c, lc = halos.plain_lens(ctx)
    A = ages(ctx, c)
    sub = ctx.flag("subhalo")
    h, = populate(ctx, lc, ["TNFW sub" if sub else "TNFW field"], [1e8])
    ctx.patch(ctx.get(halos.BASE + "TNFW", "TNFWFieldHalo"), "log_derivative_inverse", lambda self, *a, **k: 0.3)
    ext = ctx.get(X, "RealizationExtensions")(None)
    mode = ctx.choice("profile", ["evolving", "parametric", "composite", "black hole", "age"])
    cut, p = ctx.real("cut", 0.05, 2), ctx.real("p", 0, 1)
    lam = ctx.choice("lambda", [0.5, 1.0, 4.0])
    kw = dict(collapse_probability=p)
    if mode == "age":
        t = ctx.real("age over collapse time", 0.01, 3)
        kw.update(t_over_tc=t, t_over_tc_cut=cut)
        ctx.assume(A(0.5, 10) >= 0.5, A(0.25, 10) >= 0.5)
    else:
        tc = ctx.real("collapse time", 0.5, 500)
        t = age(A, h, lam) / tc
        kw.update(t_c=tc, subhalo_evolution_scaling=lam)
        kw["t_over_tc_cut" if mode == "evolving" else "t_over_tc_collapse_threshold"] = cut
        if mode == "parametric":
            kw.update(evolving_profile=False, x_core_halo=0.05)
        if mode in ("composite", "black hole"):
            kw.update(halo_profile="CC_COMPOSITE", gamma_inner=2.5 if mode == "composite" else -1.0)
    if mode == "age" and sub:
        # the age of a subhalo is the sum of the time before and after infall
        ctx.assume(A(1.5, 10) + A(0.5, 1.5) <= A(0.5, 10), A(1.5, 10) + A(0.5, 1.5) >= A(0.5, 10))
    n0 = len(ctx.rng.log)
    new = ext.toSIDM_single_halo(h, **kw)
    u = [v for k, q, v in ctx.rng.log[n0:] if k in ("rand", "uniform", "random")]
    ctx.check(len(u) <= 1, "at most one random number")
    verdict(ctx, h, new, t, u[0] if u else None, cut, p, mode)
    if new is not h:
        ctx.check({"evolving": "TNFWCHaloEvolving", "age": "TNFWCHaloEvolving", "parametric": "TNFWCHaloParametric", "composite": "CoreCollapsedHalo", "black hole": "CoreCollapsedHaloBH"}[mode] == type(new).__name__, "requested profile")
        ctx.close(new.halo_effective_age, age(A, h, lam if mode != "age" else 1.0), "effective age", rtol=1e-9)
    ctx.observe("t", new.t_over_tc)


CASES = [("TNFW sub", "TNFW field", "PT_MASS field"), ("TNFW field", "TNFW sub"), ("PT_MASS field", "TNFW sub")]


CASES = [(k, d, l) for k in (("TNFW sub", "TNFW field", "PT_MASS field"), ("TNFW field", "TNFW sub"), ("PT_MASS field", "TNFW sub")) for d, l in (((0, 1, 0), -0.5), ((1, 0, 0), 0.75), ((0, 0, 1), -0.5), ((1, 1, 0), 0.75))]


def population(ctx, lc):
    kinds, dec, ls = ctx.choice("population", CASES)
    ms = [10.0 ** (ctx.real("w%d" % i, 0, 0.99) + 7 + dec[i]) for i in range(len(kinds))]
    return populate(ctx, lc, kinds, ms), ms, dec, ls


@harness("populations of two or three subhalos, field halos and point masses of any mass inside two bins; collapse times with and without scatter; subhalo time scaling 0.3 and 6; every random number", prove_ms=10000)
def from_timescale(ctx):
    c, lc = halos.plain_lens(ctx)
    A = ages(ctx, c)
    hs, ms, dec, ls = population(ctx, lc)
    ext = ctx.get(X, "RealizationExtensions")(fakes.realization(ctx, hs, lc))
    tcs = ctx.choice("log10 tc", [(0.5, 1.5), (2.0, 0.0)])
    scatter = ctx.flag("scatter")
    n0 = len(ctx.rng.log)
    p = ctx.real("p", 0, 1)
    out = ext.toSIDM_from_timescale([[7, 8], [8, 9]], list(tcs), [0.25, 0.5] if scatter else None, ls, collapse_probability=p)
    norm = [e for e in ctx.rng.log[n0:] if e[0] == "normal"]
    rands = [e[2] for e in ctx.rng.log[n0:] if e[0] in ("rand", "uniform", "random")]
    new = list(out.halos)
    ctx.check(len(new) == len(hs), "as many halos as before")
    u = attribute(ctx, hs, new, rands, 0.15)
    who = list(range(len(hs))) if len(norm) == len(hs) else [i for i, h in enumerate(hs) if h.mdef == "TNFW"]
    ctx.check(len(norm) == (len(who) if scatter else 0), "one collapse time drawn per halo")
    for i, (a, b) in enumerate(zip(hs, new)):
        lt = tcs[dec[i]]
        if scatter and i in who:
            k, q, lt = norm[who.index(i)]
            ctx.close(q[0], tcs[dec[i]], "mean collapse time of the mass bin")
            ctx.close(q[1], (0.25, 0.5)[dec[i]], "scatter of the collapse time of the mass bin")
        if a.mdef != "TNFW":
            ctx.check(b is a, "other objects are untouched")
            continue
        verdict(ctx, a, b, age(A, a, 10 ** ls) / 10 ** lt, u.get(i), 0.15, p, "halo")
        ctx.close(b.mass, ms[i], "mass")
    ctx.observe("n", len(new))


@harness("populations of two or three subhalos, field halos and point masses of any mass inside two bins with different cross sections; default collapse time or a user function; subhalo time scaling 0.3 and 6; every random number", prove_ms=10000)
def from_cross_section(ctx):
    c, lc = halos.plain_lens(ctx)
    A = ages(ctx, c)
    hs, ms, dec, ls = population(ctx, lc)
    ext = ctx.get(X, "RealizationExtensions")(fakes.realization(ctx, hs, lc))
    sig = ctx.choice("log10 cross section", [(1.0, 2.0), (2.5, 0.5)])
    T = ctx.fn("collapse time", lambda rho, rs, s: 1e5 / (s * (1 + rs)), lo=1e-3, hi=1e4)
    kw = {}
    if ctx.flag("own collapse time"):
        kw["sidm_timescale_function"] = T
    else:
        ctx.patch(lc, "sidm_collapse_timescale", T)
    n0 = len(ctx.rng.log)
    p = ctx.real("p", 0, 1)
    out = ext.toSIDM_from_cross_section([[7, 8], [8, 9]], list(sig), ls, collapse_probability=p, **kw)
    rands = [e[2] for e in ctx.rng.log[n0:] if e[0] in ("rand", "uniform", "random")]
    new = list(out.halos)
    ctx.check(len(new) == len(hs), "as many halos as before")
    u = attribute(ctx, hs, new, rands, 0.15)
    for i, (a, b) in enumerate(zip(hs, new)):
        if a.mdef != "TNFW":
            ctx.check(b is a, "other objects are untouched")
            continue
        rho, rs, _ = a.nfw_params
        verdict(ctx, a, b, age(A, a, 10 ** ls) / T(rho, rs, 10 ** sig[dec[i]]), u.get(i), 0.15, p, "halo")
        ctx.close(b.mass, ms[i], "mass")
    ctx.observe("n", len(new))


@harness("a halo outside every listed mass range, any mass", prove_ms=10000)
def outside(ctx):
    c, lc = halos.plain_lens(ctx)
    ages(ctx, c)
    m = ctx.real("w", 1.01, 9.9) * 10.0 ** ctx.choice("decade", [4, 6, 9, 11])
    hs = populate(ctx, lc, ["TNFW field"], [m])
    ext = ctx.get(X, "RealizationExtensions")(fakes.realization(ctx, hs, lc))
    if ctx.flag("cross section"):
        ctx.raises(lambda: ext.toSIDM_from_cross_section([[7, 8], [8, 9]], [1.0, 2.0], 0.5), Exception, label="mass outside the ranges is an error")
    else:
        ctx.raises(lambda: ext.toSIDM_from_timescale([[7, 8], [8, 9]], [1.0, 2.0], None, 0.5), Exception, label="mass outside the ranges is an error")
