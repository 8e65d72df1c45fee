"""P31 model names select the documented models; unknown names fail"""
from symx.api import registry
from harness import world, fakes
from harness.halos import Conc, Trunc
from harness.p06 import CLS, ARGS, models
from symx import loader
import ast, hashlib, math, os
import numpy as np
HARNESSES, harness = registry()
MF = "pyHalo.Rendering.MassFunctions."
C = "pyHalo.Halos.concentration"
T = "pyHalo.Halos.tidal_truncation"
A = "pyHalo.Halos.accretion"


def literals():
    """every string constant of the package as it is now"""
    out = set()
    for root, _, files in os.walk(os.path.join(loader.REPO, "pyHalo")):
        for f in files:
            if f.endswith(".py"):
                for n in ast.walk(ast.parse(open(os.path.join(root, f)).read())):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 60:
                        out.add(n.value)
    return sorted(out)


def near(names):
    """names that resemble a documented one"""
    out = []
    for n in names:
        out += [v for v in (n.lower(), n.swapcase(), n + "_2", "X_" + n, n[:-1], n + " ") if v not in names and v not in out]
    return out


def table(names):
    k = tuple(names)
    if k not in TABLES:
        first = list(names) + near(names)
        TABLES[k] = (first, first + [v for v in literals() if v not in first])
    return TABLES[k]


TABLES = {}


def code(names, s):
    """number that stands for the string s: documented names, similar names, the strings of the package, any other string has its own number"""
    t = table(names)[1]
    return t.index(s) if s in t else 10 ** 6 + int(hashlib.md5(s.encode()).hexdigest(), 16) % 10 ** 6


class Name(str):
    """an arbitrary string: every comparison with a string is decided by the solver, every other use settles which string it is"""

    def settle(self):
        for s in table(self.names)[0]:
            if self == s:
                return s
        return str.__str__(self)

    def __eq__(self, other):
        if isinstance(other, Name):
            return other is self
        return isinstance(other, str) and bool(self.number == code(self.names, other))

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.settle())

    def __str__(self):
        return self.settle()

    def __repr__(self):
        return repr(self.settle())

    def __deepcopy__(self, memo):
        return self


def _delegate(n):
    def method(self, *a, **k):
        return getattr(self.settle(), n)(*a, **k)
    return method


for _n in ("upper", "lower", "title", "capitalize", "casefold", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "replace", "find", "index", "count", "partition", "swapcase", "join", "format", "encode",
           "removeprefix", "removesuffix", "__len__", "__contains__", "__getitem__", "__iter__", "__add__", "__mod__", "__format__", "__lt__", "__gt__", "__le__", "__ge__"):
    setattr(Name, _n, _delegate(_n))


def arbitrary(ctx, names):
    """any string whatsoever"""
    n = ctx.integer("name", 0, 10 ** 7)
    if not ctx.symbolic:
        t = table(names)[1]
        return t[n] if n < len(t) else "some string %d" % n
    s = Name("no documented name")
    s.number, s.names = n, names
    return s


def which(names, s):
    """the documented name that s is, or None"""
    for k in names:
        if s == k:
            return k
    return None


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        if type(e).__name__ in ("EngineGap", "NanPath"):
            raise
        return None, e


def kept(ctx, kw, before, label):
    ctx.check(list(kw) == list(before) and all(kw[k] is before[k] for k in before), label)


def parameters(ctx, kw, want):
    ctx.check(set(kw) == set(want), "exactly the user's settings and the published ones")
    for k, v in want.items():
        if k not in kw:
            continue
        if isinstance(v, (type, bool, str, dict)) or v is None:
            ctx.check(kw[k] is v or kw[k] == v, "setting kept or published: " + k)
        else:
            ctx.close(kw[k], v, "setting kept or published: " + k, rtol=1e-9)


abc = lambda a, b, c: {"a_wdm": a, "b_wdm": b, "c_wdm": c}
MASS = {"SHMF_LOVELL2020": ("mass_function_base.WDMPowerLaw", abc(36.15, 2.5, -0.2)), "LOVELL2020": ("density_peaks.ShethTormenTurnover", abc(1.95, 0.8, -1.0)), "SHMF_LOVELL2014": ("mass_function_base.WDMPowerLaw", abc(1.0, 1.0, -1.3)),
        "LOVELL2014": ("density_peaks.ShethTormenTurnover", abc(1.0, 1.0, -1.3)), "SCHIVE2016": ("density_peaks.ShethTormenTurnover", abc(1.0, 1.1, -2.2)), "SHMF_SCHIVE2016": ("mass_function_base.WDMPowerLaw", abc(1.0, 1.1, -2.2)),
        "POWER_LAW": ("mass_function_base.CDMPowerLaw", {}), "POWER_LAW_TURNOVER_SHMF": ("mass_function_base.WDMPowerLaw", {}), "POWER_LAW_TURNOVER": ("density_peaks.ShethTormenTurnover", {}),
        "SHMF_MIXED_WDM_TURNOVER": ("mass_function_base.MixedWDMPowerLaw", {}), "MIXED_WDM_TURNOVER": ("density_peaks.ShethTormenMixedWDM", {})}
STUCKER = {"STUCKER_SHMF": "mass_function_base.WDMPowerLaw", "STUCKER": "density_peaks.ShethTormenTurnover"}


@harness("name any string; half-mode mass and the user's own suppression parameters free; parameters or slope given or left out; second call after the first result was changed by the caller")
def mass_functions(ctx):
    P = ctx.get("pyHalo.mass_function_models", "preset_mass_function_models")
    names = list(MASS) + list(STUCKER)
    name = arbitrary(ctx, names)
    user = {"log_mc": ctx.real("log_mc", 5, 10), "other": {"deep": [1, 2]}, "m_pivot": 1e8}
    own = ctx.choice("own parameters", ["no", "suppression", "slope"])
    if own == "suppression":
        user.update(abc(ctx.real("a", 0.1, 40), ctx.real("b", 0.1, 3), ctx.real("c", -3, -0.1)))
    if own == "slope":
        user["dlogT_dlogk"] = -1.6
    before = dict(user)
    res, err = attempt(lambda: P(name, user))
    k = which(names, name)
    kept(ctx, user, before, "settings passed in are left alone")
    ctx.check(user["other"] == {"deep": [1, 2]}, "settings passed in are left alone")
    if k in STUCKER and own == "slope":
        ctx.check(err is None, "documented names are accepted")
        return
    if k is None or k in STUCKER:
        ctx.check(err is not None, "unknown names are refused" if k is None else "the slope is required")
        return
    ctx.check(err is None, "documented names are accepted")
    if err is not None:
        return
    for again in (False, True):
        cls, kw = res
        mod, c = MASS[k][0].split(".")
        ctx.check(cls is ctx.get(MF + mod, c), "the class of that name")
        parameters(ctx, kw, dict(user, **MASS[k][1]))
        kw["log_mc"], kw["other"], kw["a_wdm"] = 1.0, None, -5.0
        kept(ctx, user, before, "results do not share the caller's settings")
        res = P(name, user)
    if "a_wdm" not in user:
        # no settings: the constants alone, whatever was done to earlier results
        first = P(name)[1]
        first["junk"] = 1
        parameters(ctx, P(name)[1], MASS[k][1])


@harness("the two names of the general model; slope of the transfer function four values; forbidden parameters present or not; suppression parameters solved for by the library", budget=60)
def general_mass_functions(ctx):
    P = ctx.get("pyHalo.mass_function_models", "preset_mass_function_models")
    S = ctx.get(MF + "stucker", "stucker_suppression_params")
    name, d, bad = ctx.choice("case", [(n, d, b) for n, d in (("STUCKER", -1.6), ("STUCKER_SHMF", -2.5), ("STUCKER", -4.0), ("STUCKER_SHMF", -1.25)) for b in (None, "a_wdm", "b_wdm", "c_wdm")])
    user = {"dlogT_dlogk": d, "log_mc": ctx.real("log_mc", 5, 10)}
    if bad:
        user[bad] = ctx.real("given", 0.1, 3)
    before = dict(user)
    res, err = attempt(lambda: P(name, user))
    kept(ctx, user, before, "settings passed in are left alone")
    ctx.check((err is None) == (bad is None), "the suppression follows from the slope and cannot be given")
    if err is None:
        a, b, c = S(d)
        mod, cl = STUCKER[name].split(".")
        ctx.check(res[0] is ctx.get(MF + mod, cl), "the class of that name")
        parameters(ctx, res[1], dict(abc(float(a), float(b), float(c)), log_mc=user["log_mc"]))


BOSE = {"kwargs_cdm": {}, "c_scale": 60.0, "c_power": -0.17, "c_power_inner": 1.0, "mc_suppression_redshift_evolution": False}
CONC = {"DIEMERJOYCE19": ("ConcentrationDiemerJoyce", {}), "LUDLOW2016": ("ConcentrationLudlow", {}), "PEAK_HEIGHT_POWERLAW": ("ConcentrationPeakHeight", {}), "BINNED_HALO_MASS": ("BinnedHaloMass", {}),
        "WDM_HYPERBOLIC": ("ConcentrationWDMHyperbolic", {}), "WDM_POLYNOMIAL": ("ConcentrationWDMPolynomial", {}), "BOSE2016": ("ConcentrationWDMPolynomial", dict(BOSE, concentration_cdm_class="ConcentrationDiemerJoyce")),
        "BOSE2016_LUDLOW": ("ConcentrationWDMPolynomial", dict(BOSE, concentration_cdm_class="ConcentrationLudlow")),
        "LAROCHE2022": ("ConcentrationWDMPolynomial", {"kwargs_cdm": {}, "c_scale": 21.42, "c_power": -0.42, "c_power_inner": 1.62, "concentration_cdm_class": "ConcentrationDiemerJoyce"}),
        "LUDLOW_WDM": ("ConcentrationLudlowWDM", {}), "CONSTANT": ("ConcentrationConstant", {}), "FROM_FORMATION_HISTORY": ("ConcentrationWDMHyperbolic", None), "CUSTOM": (None, None)}


@harness("name any string; half-mode mass, scatter, the user's own suppression parameters and the slope of the transfer function (1 to 5) free; settings given or left out; custom classes with and without the required method")
def concentrations(ctx):
    P = ctx.get("pyHalo.concentration_models", "preset_concentration_models")
    names = list(CONC)
    name = arbitrary(ctx, names)
    d = ctx.real("slope", 1.0, 5)

    class Own(object):
        def nfw_concentration(self, m, z):
            return 5.0

    class Useless(object):
        pass
    own = ctx.choice("custom class", [Own, Useless])
    user = {"log_mc": ctx.real("log_mc", 5, 10), "scatter_dex": ctx.real("scatter", 0, 0.5), "c_scale": ctx.real("c_scale", 1, 90), "dlogT_dlogk": d, "custom_class": own}
    before = dict(user)
    res, err = attempt(lambda: P(name, user))
    k = which(names, name)
    kept(ctx, user, before, "settings passed in are left alone")
    refused = k is None or k == "CUSTOM" and own is Useless
    ctx.check((err is not None) == refused, "documented names are accepted and others refused")
    if err is not None or refused:
        return
    for again in (False, True):
        cls, kw = res
        want = dict(user)
        if k == "CUSTOM":
            del want["custom_class"]
            ctx.check(cls is Own, "the user's class")
        else:
            ctx.check(cls is ctx.get(C, CONC[k][0]), "the class of that name")
            if k == "FROM_FORMATION_HISTORY":
                del want["dlogT_dlogk"]
                want.update(a=0.75 * (0.7 / d) ** 0.4, b=0.94 * ctx.abs(math.log(2.36) / ctx.log(d + 0.6)) ** 0.7)
            else:
                want.update({q: (ctx.get(C, v) if q == "concentration_cdm_class" else v) for q, v in CONC[k][1].items()})
        parameters(ctx, kw, want)
        kw.clear()
        kept(ctx, user, before, "results do not share the caller's settings")
        res = P(name, user)
    if k not in ("CUSTOM", "FROM_FORMATION_HISTORY"):
        first = P(name)[1]
        for v in first.values():
            if isinstance(v, dict):
                v["junk"] = 1
        first["junk"] = 1
        parameters(ctx, P(name)[1], {q: (ctx.get(C, v) if q == "concentration_cdm_class" else v) for q, v in CONC[k][1].items()})


TRUNC = {"TRUNCATION_R50": ("TruncationRN", {"LOS_truncation_factor": 50}), "TRUNCATION_R200": ("TruncationRN", {"LOS_truncation_factor": 200}), "TRUNCATION_RN": ("TruncationRN", {}), "TRUNCATION_ROCHE": ("TruncationRoche", {}),
         "TRUNCATION_ROCHE_GILMAN2020": ("TruncationRoche", {"RocheNorm": 1.4, "m_power": 1. / 3, "RocheNu": 2. / 3}), "SPLASHBACK": ("TruncationSplashBack", {}), "TRUNCATION_MEAN_DENSITY": ("TruncateMeanDensity", {}),
         "TRUNCATION_GALACTICUS": ("TruncationGalacticus", {}), "TRUNCATION_GALACTICUS_ZINFALL": ("TruncationGalacticusZinfall", {}), "TRUNCATION_GALACTICUS_KEELEY24": ("TruncationGalacticusKeeley24", {}),
         "CONSTANT": ("ConstantTruncationArcsec", {}), "MULTIPLE_RS": ("Multiple_RS", {}), "BOUND_MASS_PDF": ("TruncationBoundMassPDF", {}), "TRUNCATION_GALACTICUS_CDM_APPROX": ("TruncationGalacticusApproxCDM", {})}


@harness("name any string, or a class; second call after the first result was changed by the caller")
def truncations(ctx):
    P = ctx.get("pyHalo.truncation_models", "truncation_models")
    if ctx.flag("a class"):
        cls, kw = P(Trunc)
        ctx.check(cls is Trunc and kw == {}, "a class is used as it is")
        return
    names = list(TRUNC)
    name = arbitrary(ctx, names)
    res, err = attempt(lambda: P(name))
    k = which(names, name)
    ctx.check((err is None) == (k is not None), "documented names are accepted and others refused")
    if k is None or err is not None:
        return
    for again in (False, True):
        ctx.check(res[0] is ctx.get(T, TRUNC[k][0]), "the class of that name")
        parameters(ctx, res[1], TRUNC[k][1])
        res[1]["LOS_truncation_factor"] = 7.0
        res = P(name)


PRESETS = {"CDM": "cdm", "WDM": "wdm", "SIDM_core_collapse": "sidm", "SIDM_parametric": "sidm", "SIDM_parametric_fixedbins": "sidm", "ULDM": "uldm", "WDM_mixed": "wdm", "WDMGeneral": "wdm", "CDM_plus_BH": "mbh", "JointLOSWithEmulator": "external",
           "DMEmulator": "DMSubhalosFromEmulator", "DMGalacticus": "DMFromGalacticus", "CUSTOM": None}


@harness("name any string")
def presets(ctx):
    P = ctx.get("pyHalo.preset_models", "preset_model_from_name")
    names = list(PRESETS)
    name = arbitrary(ctx, names)
    mine = lambda **k: k
    res, err = attempt(lambda: P(name, mine))
    k = which(names, name)
    ctx.check((err is None) == (k is not None), "documented names are accepted and others refused")
    if k is None or err is not None:
        return
    if k == "CUSTOM":
        ctx.check(res is mine, "the user's function")
        return
    mod, fn = (PRESETS[k], k) if not k.startswith("DM") else ("external", PRESETS[k])
    ctx.check(res is ctx.get("pyHalo.PresetModels." + mod, fn), "the preset of that name")


INFALL = {"HYBRID_INFALL": "InfallDistributionHybrid", "DIRECT_INFALL": "InfallDistributionDirect", "DIRECT_INFALL_CLUSTER": "InfallDistributionClusterDirect", "GALACTICUS_2024": "InfallDistributionGalacticus2024",
          "INFALL_ZLENS": "InfallAtZlens", "INFALL_0": "Infall0"}


@harness("name any string, or a class; host halo mass (1e11 to 1e15, given as a mass, as a logarithm, or left out) free; two lens redshifts", budget=60)
def infall(ctx):
    L = ctx.load("pyHalo.Halos.lens_cosmo")
    made = []

    def stand_in(cls):
        def build(*a, **k):
            made.append((cls, a, k))
            return lambda m: 3.5 + 1e-12 * m
        return build
    for n, cls in INFALL.items():
        if hasattr(L, cls):
            ctx.patch(L, cls, stand_in(cls))
    zl = ctx.choice("zl", [0.5, 0.3])
    lc = L.LensCosmo(zl, 2.0, world.Cosmology(ctx, free=False))
    del made[:]
    lg = ctx.real("host", 11, 15)
    given = ctx.choice("host mass", ["log", "mass", "none"])
    user = {"log": {"log_m_host": lg}, "mass": {"m_host": 10 ** lg}, "none": {}}[given]
    before = dict(user)
    if ctx.flag("a class"):
        class Own(object):
            def __init__(self, z, log_m_host=None):
                made.append(("own", (z, log_m_host), {}))

            def __call__(self, m):
                return 2.25
        if given == "mass":
            return
        lc.setup_infall_model(Own, user)
        ctx.close(lc.z_accreted_from_zlens(1e8), 2.25, "the user's class", rtol=1e-12)
        ctx.check(len(made) == 1 and made[0][0] == "own", "the user's class")
        ctx.close(made[0][1][0], zl, "lens redshift", rtol=1e-12)
        ctx.check(made[0][1][1] is user.get("log_m_host"), "the user's settings")
        return
    names = list(INFALL)
    name = arbitrary(ctx, names)
    res, err = attempt(lambda: lc.setup_infall_model(name, user))
    k = which(names, name)
    kept(ctx, user, before, "settings passed in are left alone")
    refused = k is None or k == "DIRECT_INFALL_CLUSTER" and given == "none"
    ctx.check((err is not None) == refused, "documented names are accepted and others refused")
    if refused or err is not None:
        return
    ctx.check(len(made) == 1, "one model")
    cls, a, kw = made[0]
    ctx.check(cls == INFALL[k], "the model of that name")
    vals = list(a) + list(kw.values())
    host = [] if k not in ("HYBRID_INFALL", "DIRECT_INFALL", "DIRECT_INFALL_CLUSTER") else [13.0 if given == "none" else lg]
    want = ([] if k == "INFALL_0" else [zl]) + host
    ctx.check(len(vals) == len(want), "lens redshift and host mass")
    for x, y in zip(vals, want):
        ctx.close(x, y, "lens redshift and host mass", rtol=1e-9)
    ctx.close(lc.z_accreted_from_zlens(1e8), 3.5001, "infall redshifts come from that model", rtol=1e-9)


@harness("name of the profile any string; subhalo or field halo", budget=60)
def profiles(ctx):
    names = list(CLS)
    name = arbitrary(ctx, names)
    sub = ctx.flag("subhalo")
    kw, *_ = models(ctx, False, False)
    lc = world.lens_cosmo(ctx, cosmo=world.Cosmology(ctx, free=False))
    R = ctx.get("pyHalo.single_realization", "Realization")
    res, err = attempt(lambda: R(np.array([10 ** 8.0]), np.array([0.1]), np.array([0.2]), np.array([30.0]), [name], np.array([0.5]), [sub], lc, kwargs_halo_model=kw).halos)
    k = which(names, name)
    ctx.check((err is None) == (k is not None), "documented names are accepted and others refused")
    if k is None or err is not None:
        return
    mod, subs, fields = CLS[k]
    ctx.check(len(res) == 1 and type(res[0]).__name__ in (subs if sub else fields), "the profile of that name")


VOLUMES = {"DOUBLE_CONE": "DoubleCone", "CYLINDER": "Cylinder", "CONE": "Cone"}


@harness("name of the geometry any string; rendering radius at the lens compared between the three shapes")
def geometries(ctx):
    G = ctx.get("pyHalo.Cosmology.geometry", "Geometry")
    names = list(VOLUMES)
    name = arbitrary(ctx, names)
    cosmo = world.Cosmology(ctx, free=False)
    res, err = attempt(lambda: G(cosmo, 0.5, 1.5, 6.0, name))
    k = which(names, name)
    ctx.check((err is None) == (k is not None), "documented names are accepted and others refused")
    if k is None or err is not None:
        return
    # behind the lens a double cone closes, a cone stays open, and a cylinder keeps its comoving size
    r = [res.rendering_scale(z) for z in (0.25, 1.0)]
    d = [cosmo.D_C_transverse(z) for z in (0.25, 0.5, 1.0)]
    want = {"CONE": [1.0, 1.0], "CYLINDER": [d[1] / d[0], d[1] / d[2]]}.get(k)
    if want:
        for a, b in zip(r, want):
            ctx.close(a, b, "shape of that name", rtol=1e-6)
    else:
        ctx.close(r[0], 1.0, "opens towards the lens", rtol=1e-9)
        ctx.lt(r[1], 1.0, "closes behind the lens")


POPULATIONS = {"SUBHALOS": "subhalos.Subhalos", "LINE_OF_SIGHT": "line_of_sight.LineOfSight", "LINE_OF_SIGHT_NOSHEET": "line_of_sight.LineOfSightNoSheet", "TWO_HALO": "two_halo.TwoHaloContribution"}


@harness("name of the population any string, alone or after others")
def populations(ctx):
    H = ctx.load("pyHalo.Rendering.halo_population")
    names = list(POPULATIONS)
    name = arbitrary(ctx, names)
    for k, v in POPULATIONS.items():
        cls = v.split(".")[1]
        if hasattr(H, cls):
            ctx.patch(H, cls, lambda *a, _c=cls, **kw: (_c, a, kw))

    class Space(object):
        name = "UNIFORM"

        def __init__(self, **kw):
            self.kw = kw
    n = ctx.choice("position", [0, 1])
    lists = [["LINE_OF_SIGHT", name][1 - n:], ["first", "second"][1 - n:], [{"q": 1}, {"q": 2}][1 - n:], [Space] * (n + 1), [{"s": 1}, {"s": 2}][1 - n:]]
    res, err = attempt(lambda: H.HaloPopulation(*lists, "lens", "geometry", [0.1, 0.5], [0.1, 0.1], True, 1.0))
    k = which(names, name)
    ctx.check((err is None) == (k is not None), "documented names are accepted and others refused")
    if k is None or err is not None:
        return
    got = res.rendering_classes
    ctx.check(len(got) == n + 1, "one model per population")
    cls, a, kw = got[-1]
    ctx.check(cls == POPULATIONS[k].split(".")[1], "the population of that name")
    vals = list(a) + list(kw.values())
    ctx.check("second" in [v for v in vals if isinstance(v, str)] and any(v == {"q": 2} for v in vals if isinstance(v, dict)), "with its own mass function")
    ctx.check(any(isinstance(v, Space) and v.kw == {"s": 2} for v in vals), "with its own spatial distribution")
