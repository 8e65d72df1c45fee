"""P28 preset models pass every setting to the component it controls"""
from symx.api import registry
from harness import world, fakes
import inspect
HARNESSES, harness = registry()
ROOT = "pyHalo.PresetModels."
GAL = ("TRUNCATION_GALACTICUS", "TRUNCATION_GALACTICUS_KEELEY24", "TRUNCATION_GALACTICUS_ZINFALL")
EXT = ("SIS_injection", "add_globular_clusters", "toSIDM_from_cross_section", "core_collapse_by_mass", "add_core_collapsed_halos", "add_ULDM_fluctuations", "add_black_holes")
NAMED = {"TRUNCATION_GALACTICUS": "TruncationGalacticus", "TRUNCATION_GALACTICUS_KEELEY24": "TruncationGalacticusKeeley24", "TRUNCATION_GALACTICUS_ZINFALL": "TruncationGalacticusZinfall", "TRUNCATION_RN": "TruncationRN"}
OTHER = {"H0": 70.0, "Om0": 0.3, "Ob0": 0.05, "sigma8": 0.8, "flat": True, "ns": 0.97, "power_law": False}


class Cosmos(world.Cosmology):
    def __deepcopy__(self, memo):
        return self


class Sky(world.Astropy):
    def __deepcopy__(self, memo):
        return self


class Relation(object):
    """concentration relation that keeps the keyword arguments it was given; c is an arbitrary function of mass and redshift"""
    c = None

    def __init__(self, **kw):
        self.kw = kw

    def nfw_concentration(self, m, z, *a, **k):
        return type(self).c(m, z)


class Cut(object):
    def __init__(self, **kw):
        self.kw = kw


class Infall(object):
    def __init__(self, z, **kw):
        self.kw = kw


class Rec(object):
    """everything the components receive from a preset"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls, self.infall, self.ext, self.cosmos = [], [], [], []
        self.n = 0
        mod = ctx.load("pyHalo.pyhalo")
        P, L, X = ctx.get("pyHalo.pyhalo", "pyHalo"), ctx.get("pyHalo.Halos.lens_cosmo", "LensCosmo"), ctx.get("pyHalo.realization_extensions", "RealizationExtensions")
        sig = inspect.signature(P.render)
        cosmo = Cosmos(ctx, free=False)
        cosmo.astropy = Sky(cosmo)
        self.cosmo = cosmo

        def make_cosmo(astropy_instance=None, cosmo_kwargs={}):
            self.cosmos.append((astropy_instance, cosmo_kwargs))
            return cosmo
        ctx.patch(mod, "Cosmology", make_cosmo)
        ctx.patch(mod, "FlatLambdaCDM", lambda *a, **k: ("flat", k))

        def render(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d["lens"] = this.lens_cosmo
            d["infall"] = self.infall[-1] if self.infall else None
            R = self.fresh(this.lens_cosmo)
            d["result"] = R
            self.calls.append(d)
            return [R]
        ctx.patch(P, "render", render)

        def setup(this, model, kwargs):
            self.infall.append((model, dict(kwargs)))
            this._infall_pdf_set = True
        ctx.patch(L, "setup_infall_model", setup)
        for name in EXT:
            self.extension(X, name)
        self.tidal = []
        T = ctx.load("pyHalo.truncation_models")
        for name in set(NAMED.values()):
            ctx.patch(T, name, type("Named" + name, (Cut,), {}))
        self.T = T
        self.Relation = type("Relation", (Relation,), {"c": staticmethod(ctx.fn("host_concentration", lambda m, z: 6.5, lo=1, hi=30))})
        D = ctx.get("pyHalo.Halos.concentration", "ConcentrationDiemerJoyce")
        ctx.patch(D, "nfw_concentration", lambda this, m, z, *a, **k: self.Relation.c(m, z))

    def fresh(self, lens):
        self.n += 1
        return fakes.realization(self.ctx, [fakes.FakeHalo(1000.5 + self.n, 1e7, 0.1 * self.n, 0.2, 0.5)], lens)

    def extension(self, X, name):
        sig = inspect.signature(getattr(X, name))

        def method(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop("self")
            before = sorted(h.unique_tag for h in this._realization.halos)
            if name == "core_collapse_by_mass":
                R, after = [3, 5, 8], None
            else:
                R = self.fresh(this._realization.lens_cosmo)
                after = R.halos[0].unique_tag
            self.ext.append((name, d, before, after, R))
            return R
        self.ctx.patch(X, name, method)


def lineage(rec, res, start, steps, ctx):
    """the result is what is left after exactly these conversions, in an order that keeps every one of them"""
    ctx.check(sorted(n for n, _, _, _, _ in rec.ext) == sorted(n for n, _ in steps), "exactly the requested populations and conversions")
    tags = sorted(h.unique_tag for h in res.halos)
    kept = [start]
    for name, d, before, after, R in rec.ext:
        ctx.check(before == sorted(kept), "each step starts from everything before it")
        if after is not None:
            kept = kept + [after] if name == "add_black_holes" else [after]
    ctx.check(tags == sorted(kept), "the result contains every step")
    for name, want in steps:
        got = [d for n, d, _, _, _ in rec.ext if n == name][0]
        for k, v in want.items():
            same(ctx, got.get(k), v, "%s: %s" % (name, k))


def same(ctx, got, want, label):
    if want is None or isinstance(want, (str, bool, type)) or callable(want):
        ctx.check(got is want or got == want, label)
    elif isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), label)
        for g, w in zip(got, want):
            same(ctx, g, w, label)
    elif isinstance(want, dict):
        ctx.check(isinstance(got, dict) and set(got) == set(want), label)
        for k in want:
            same(ctx, got.get(k), want[k], label)
    elif isinstance(want, (int, float)) or hasattr(want, "t"):
        ctx.check(got is not None, label)
        ctx.close(got, want, label, rtol=1e-9)
    else:
        ctx.check(got is want or got == want, label)


def some(ctx, got, want, label):
    """got has at least the wanted items, with the wanted values"""
    for k, v in want.items():
        ctx.check(k in got, "%s: %s is passed" % (label, k))
        same(ctx, got.get(k), v, "%s: %s" % (label, k))


def populations(d):
    out = {}
    for i, n in enumerate(d["population_model_list"]):
        out.setdefault(n, []).append((d["mass_function_class_list"][i], d["kwargs_mass_function_list"][i], d["spatial_distribution_class_list"][i], d["kwargs_spatial_distribution_list"][i]))
    return out


def amplitude(s):
    if s.get("log10_dNdA") is not None:
        return {"dndA": 10 ** s["log10_dNdA"]}
    if s.get("log10_sigma_sub") is not None:
        return {"sigma_sub": 10 ** s["log10_sigma_sub"]}
    return {"sigma_sub": s["sigma_sub"]}


def volume(ctx, rec, d, s):
    """lens, cosmology, geometry and planes"""
    ctx.check(d["lens"].z_lens == s["z_lens"] and d["lens"].z_source == s["z_source"], "lens and source redshift")
    g = d["geometry_class"]
    same(ctx, g.cone_opening_angle, s["cone_opening_angle_arcsec"], "opening angle of the volume")
    G = ctx.get("pyHalo.Cosmology.geometry", "Geometry")(rec.cosmo, s["z_lens"], s["z_source"], s["cone_opening_angle_arcsec"], s["geometry_type"])
    for z in (0.21, 0.48, 0.72, 1.1):
        if z < s["z_source"]:
            same(ctx, g.rendering_scale(z), G.rendering_scale(z), "shape of the volume")
    ctx.check(len(rec.cosmos) >= 1, "a cosmology")
    flat, kw = rec.cosmos[-1]
    if s.get("kwargs_cosmo") is None:
        ctx.check(flat is None, "default cosmology")
    else:
        ctx.check(kw == OTHER and flat[1]["H0"] == 70.0 and flat[1]["Om0"] == 0.3 and flat[1]["Ob0"] == 0.05, "the requested cosmology")
    same(ctx, d["lens_plane_spacing"], s.get("lens_plane_spacing"), "spacing of the lens planes")
    same(ctx, d["two_halo_Lazar_correction"], s.get("two_halo_Lazar_correction", True), "two-halo correction flag")
    same(ctx, d["scale_2halo_boost_factor"], s.get("scale_2halo_boost_factor", 1.0), "two-halo boost")
    ctx.check(d["nrealizations"] == 1, "one realization")


def infall(ctx, d, s):
    model, kw = d["infall"]
    want = s.get("infall_redshift_model", "HYBRID_INFALL")
    ctx.check(model is want or model == want, "infall model")
    user = s.get("kwargs_infall_model", {})
    if want in ("HYBRID_INFALL", "DIRECT_INFALL", "DIRECT_INFALL_CLUSTER"):
        same(ctx, kw.get("log_m_host"), s["log_m_host"], "host mass of the infall model")
        some(ctx, kw, user, "infall arguments")
    elif not isinstance(want, str):
        same(ctx, kw, user, "arguments of the user's infall model")


def spatial(ctx, d, s, c_host):
    S = populations(d)
    U, N, C = [ctx.get("pyHalo.Rendering.SpatialDistributions." + m, n) for m, n in (("uniform", "Uniform"), ("nfw", "ProjectedNFW"), ("uniform", "LensConeUniform"))]
    half = s["cone_opening_angle_arcsec"] / 2
    for name, rows in S.items():
        for _, _, cls, kw in rows:
            if name != "SUBHALOS":
                ctx.check(cls is C, "line-of-sight halos fill the volume uniformly")
                same(ctx, kw["cone_opening_angle"], 2 * half, "opening angle of the line-of-sight halos")
                ctx.check(kw["geometry"] is d["geometry_class"], "same geometry")
            elif s["subhalo_spatial_distribution"] == "UNIFORM":
                ctx.check(cls is U, "uniform subhalos")
                same(ctx, kw["rmax2d_arcsec"], half, "projected extent of the subhalos")
                ctx.check(kw["geometry"] is d["geometry_class"], "same geometry")
            else:
                ctx.check(cls is N, "subhalos trace the host")
                ctx.check(kw["lens_cosmo"] is d["lens"], "same lens")
                some(ctx, {k: v for k, v in kw.items() if k != "lens_cosmo"}, {"m_host": 10 ** s["log_m_host"], "zlens": s["z_lens"], "c_host": c_host, "rmax2d_arcsec": half, "r_core_units_rs": s["r_tidal"]}, "host profile")


def truncation(ctx, rec, d, s, c_host):
    h = d["kwargs_halo_model"]
    for key, user, model in (("truncation_model_subhalos", "kwargs_truncation_model_subhalos", s["truncation_model_subhalos"]), ("truncation_model_field_halos", "kwargs_truncation_model_fieldhalos", s["truncation_model_fieldhalos"])):
        got = h[key]
        ctx.check(type(got) is (getattr(rec.T, NAMED[model]) if isinstance(model, str) else model), "truncation model")
        ctx.check(got.kw.get("lens_cosmo") is d["lens"], "truncation model of this lens")
        want = dict(s.get(user, {}))
        if model in GAL and "subhalos" in key:
            want["c_host"] = c_host
        same(ctx, {k: v for k, v in got.kw.items() if k != "lens_cosmo"}, want, "arguments of the truncation model")


def concentration(ctx, rec, d, s, extra=None):
    h = d["kwargs_halo_model"]
    for key, name in (("concentration_model_subhalos", "concentration_model_subhalos"), ("concentration_model_field_halos", "concentration_model_fieldhalos")):
        got, kw = h[key], dict(s.get("kwargs_" + name, {}))
        if s[name] == "CUSTOM":
            ctx.check(isinstance(got, kw.pop("custom_class")), "the user's concentration model")
            ctx.check(got.kw.get("cosmo") is rec.cosmo.astropy, "cosmology of the concentration model")
            some(ctx, got.kw, dict(extra or {}, **kw), "arguments of the concentration model")
        else:
            cls = ctx.get("pyHalo.concentration_models", "preset_concentration_models")(s[name], {"dlogT_dlogk": -2.0})[0]
            ctx.check(isinstance(got, cls), "concentration model")


def masses(ctx, rows, want, label):
    for _, kw, _, _ in rows:
        for k, v in want.items():
            got = kw.get(k, True if k == "draw_poisson" else None)
            ctx.check(got is not None, "%s: %s is passed" % (label, k))
            same(ctx, got, v, "%s: %s" % (label, k))
        if "dndA" not in want and "sigma_sub" in want:
            ctx.check(kw.get("dndA") is None, "one amplitude")


def numbers(ctx, **fixed):
    R = ctx.real
    s = {"sigma_sub": R("sigma_sub", 0, 1), "log_mlow": R("log_mlow", 4, 8), "log_mhigh": R("log_mhigh", 8.5, 12), "shmf_log_slope": R("slope", -2.5, -1.5),
         "cone_opening_angle_arcsec": R("cone", 1, 30), "log_m_host": R("log_m_host", 11, 15), "r_tidal": R("r_tidal", 0, 3), "LOS_normalization": R("LOS", 0, 3)}
    s.update(fixed)
    return s


AMPS = {"linear": {}, "log": {"log10_sigma_sub": None}, "log per area": {"log10_dNdA": None}, "both logs": {"log10_sigma_sub": None, "log10_dNdA": None}}


def amplitudes(ctx, kind):
    return {k: ctx.real(k, -3, 1) for k in AMPS[kind]}


def custom(ctx, rec, s):
    """the user's own concentration models with arguments"""
    for i, k in enumerate(("concentration_model_subhalos", "concentration_model_fieldhalos")):
        s[k] = "CUSTOM"
        s["kwargs_" + k] = {"custom_class": rec.Relation, "some_argument": 0.25 + i}
    return s


def tidal(ctx, sub, field="TRUNCATION_RN"):
    s = {"truncation_model_subhalos": sub if isinstance(sub, str) else type("A", (Cut,), {}), "truncation_model_fieldhalos": field if isinstance(field, str) else type("B", (Cut,), {})}
    s["kwargs_truncation_model_subhalos"] = {"my_norm": 1.25}
    s["kwargs_truncation_model_fieldhalos"] = {"LOS_truncation_factor": 40.0}
    return s


def call(ctx, fn, s, *a, **more):
    """call with the settings; the caller's dictionaries are left alone"""
    kw = dict(s, **more)
    before = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    res = fn(*a, **kw)
    for k, v in before.items():
        ctx.check(kw[k] == v, "the caller's keyword arguments are not modified")
    return res


def check_cdm(ctx, rec, d, s, c_host):
    volume(ctx, rec, d, s)
    infall(ctx, d, s)
    spatial(ctx, d, s, c_host)
    truncation(ctx, rec, d, s, c_host)
    concentration(ctx, rec, d, s, {"scatter_dex": 0.2})
    P = populations(d)
    same(ctx, d["mdef_subhalos"], s.get("halo_mass_profile", "TNFW"), "mass profile of the subhalos")
    same(ctx, d["mdef_field_halos"], s.get("halo_mass_profile", "TNFW"), "mass profile of the field halos")
    names = ["LINE_OF_SIGHT", "SUBHALOS"] + (["TWO_HALO"] if s.get("two_halo_contribution", True) else [])
    ctx.check(sorted(P) == names and all(len(v) == 1 for v in P.values()), "exactly the requested populations")
    PL, ST = ctx.get("pyHalo.Rendering.MassFunctions.mass_function_base", "CDMPowerLaw"), ctx.get("pyHalo.Rendering.MassFunctions.density_peaks", "ShethTormen")
    both = {"log_mlow": s["log_mlow"], "log_mhigh": s["log_mhigh"], "m_pivot": 10 ** 8, "draw_poisson": s.get("draw_poisson", True), "log_m_host": s["log_m_host"], "delta_power_law_index": s.get("delta_power_law_index", 0.0)}
    sub = dict(both, power_law_index=s["shmf_log_slope"], host_scaling_factor=s.get("host_scaling_factor", 0.55), redshift_scaling_factor=s.get("redshift_scaling_factor", 0.37), **amplitude(s))
    for n, rows in P.items():
        ctx.check(rows[0][0] is (PL if n == "SUBHALOS" else ST), "mass function")
        masses(ctx, rows, sub if n == "SUBHALOS" else dict(both, LOS_normalization=s["LOS_normalization"]), n)


def scalings(ctx):
    return {"host_scaling_factor": ctx.real("host scaling", -1, 2), "redshift_scaling_factor": ctx.real("redshift scaling", -1, 2)}


CDM = [dict(amp="linear", space="UNIFORM", c=True, sub="TRUNCATION_GALACTICUS", infall="HYBRID_INFALL", profile="TNFW", geo="DOUBLE_CONE"),
       dict(amp="log", space="PROJECTED_NFW", c=True, sub="class", infall="DIRECT_INFALL", profile="NFW", geo="CYLINDER", no2=True, noisy=False, gc=True),
       dict(amp="log per area", space="PROJECTED_NFW", c=False, sub="TRUNCATION_GALACTICUS_ZINFALL", infall="DIRECT_INFALL_CLUSTER", profile="PT_MASS", geo="CONE", sis="SIS", lazar=False, spacing=0.05, cosmo=OTHER),
       dict(amp="both logs", space="UNIFORM", c=False, sub="TRUNCATION_GALACTICUS_KEELEY24", infall=Infall, profile="TNFW", geo="DOUBLE_CONE", sis="GNFW", gc=True, noisy=False),
       dict(amp="log", space="UNIFORM", c=True, sub="TRUNCATION_RN", infall="GALACTICUS_2024", profile="TNFW", geo="DOUBLE_CONE", no2=True, lazar=False)]


def cdm_settings(ctx, rec, k):
    s = numbers(ctx, z_lens=k.get("zl", 0.5), z_source=1.5)
    s.update(amplitudes(ctx, k["amp"]))
    s.update(scalings(ctx))
    s.update(tidal(ctx, Cut if k["sub"] == "class" else k["sub"], Cut if k["sub"] == "class" else "TRUNCATION_RN"))
    s = custom(ctx, rec, s)
    s.update(subhalo_spatial_distribution=k["space"], geometry_type=k["geo"], infall_redshift_model=k["infall"], halo_mass_profile=k["profile"], two_halo_contribution=not k.get("no2"),
             two_halo_Lazar_correction=k.get("lazar", True), draw_poisson=k.get("noisy", True), delta_power_law_index=ctx.real("delta", -0.5, 0.5), kwargs_cosmo=k.get("cosmo"), lens_plane_spacing=k.get("spacing"))
    s["c_host"] = ctx.real("c_host", 2, 20) if k["c"] else None
    if not isinstance(k["infall"], str):
        s["kwargs_infall_model"] = {"mine": 3.5}
    if k.get("sis"):
        s.update(mass_threshold_sis=ctx.real("threshold", 1e9, 1e12), galaxy_model=k["sis"])
    if k.get("gc"):
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": ctx.real("gc", 4, 6), "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    steps = ([("SIS_injection", {"mass_threshold": s["mass_threshold_sis"], "galaxy_model": k["sis"]})] if k.get("sis") else []) + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if k.get("gc") else [])
    return s, steps


NUM = "amplitudes, mass limits, slopes, scalings, opening angle 1 to 30 arcsec, host mass and concentration, core radius and normalisations free"


@harness(NUM + "; all four ways of giving the amplitude, both spatial distributions, named and user-supplied truncation, concentration and infall models, three geometries and mass profiles, populations and flags on and off in five combinations", budget=150)
def cdm(ctx):
    k = ctx.choice("configuration", CDM)
    rec = Rec(ctx)
    s, steps = cdm_settings(ctx, rec, k)
    res = call(ctx, ctx.get(ROOT + "cdm", "CDM"), s)
    ctx.check(len(rec.calls) == 1, "rendered once")
    d = rec.calls[0]
    check_cdm(ctx, rec, d, s, s["c_host"] if k["c"] else rec.Relation.c(10 ** s["log_m_host"], s["z_lens"]))
    lineage(rec, res, d["result"].halos[0].unique_tag, steps, ctx)


@harness("a call with defaults for everything but the lens; after an arbitrary earlier call (two kinds, each with its own host mass and models)", budget=150)
def history(ctx):
    rec = Rec(ctx)
    C = ctx.get(ROOT + "cdm", "CDM")
    first = ctx.choice("earlier call", ["none", "other numbers", "everything different"])
    if first == "other numbers":
        C(0.4, 2.0, log_m_host=ctx.real("log_m_host", 11, 15), cone_opening_angle_arcsec=8.0, infall_redshift_model="DIRECT_INFALL_CLUSTER")
    elif first == "everything different":
        s, _ = cdm_settings(ctx, rec, CDM[1])
        C(**s)
    del rec.ext[:]
    own = ctx.flag("user's infall model")
    res = C(0.5, 1.5, **({"infall_redshift_model": Infall} if own else {}))
    d = rec.calls[-1]
    s = dict(z_lens=0.5, z_source=1.5, sigma_sub=0.025, log_mlow=6.0, log_mhigh=10.0, shmf_log_slope=-1.9, cone_opening_angle_arcsec=6.0, log_m_host=13.3, r_tidal=0.25, LOS_normalization=1.0, geometry_type="DOUBLE_CONE",
             subhalo_spatial_distribution="UNIFORM", truncation_model_subhalos="TRUNCATION_GALACTICUS", truncation_model_fieldhalos="TRUNCATION_RN", concentration_model_subhalos="LUDLOW2016", concentration_model_fieldhalos="LUDLOW2016")
    if own:
        s["infall_redshift_model"] = Infall
    check_cdm(ctx, rec, d, s, 6.0)
    lineage(rec, res, d["result"].halos[0].unique_tag, [], ctx)
    for h in ("concentration_model_subhalos", "concentration_model_field_halos"):
        ctx.close(d["kwargs_halo_model"][h]._scatter_dex, 0.2, "default scatter")


@harness("requested scatter 0 to 1 dex in either or both concentration models, published relation or constant; unknown profiles, distributions, geometries, concentration and truncation models", budget=120)
def options(ctx):
    rec = Rec(ctx)
    C = ctx.get(ROOT + "cdm", "CDM")
    case = ctx.choice("case", ["scatter", "constant", "profile", "space", "geometry", "concentration", "truncation", "binned profile", "warm space"])
    if case == "scatter":
        a, b = ctx.real("a", 0, 1), ctx.real("b", 0, 1)
        C(0.5, 1.5, kwargs_concentration_model_subhalos={"scatter_dex": a}, concentration_model_fieldhalos="DIEMERJOYCE19", kwargs_concentration_model_fieldhalos={"scatter_dex": b})
        h = rec.calls[0]["kwargs_halo_model"]
        ctx.close(h["concentration_model_subhalos"]._scatter_dex, a, "requested scatter of the subhalos")
        ctx.close(h["concentration_model_field_halos"]._scatter_dex, b, "requested scatter of the field halos")
    elif case == "constant":
        a = ctx.real("a", 1, 50)
        C(0.5, 1.5, concentration_model_subhalos="CONSTANT", kwargs_concentration_model_subhalos={"c": a})
        ctx.close(rec.calls[0]["kwargs_halo_model"]["concentration_model_subhalos"].nfw_concentration(1e8, 0.5), a, "constant concentration")
    else:
        fn, kw = {"profile": (C, {"halo_mass_profile": "SIS"}), "space": (C, {"subhalo_spatial_distribution": "NFW"}), "geometry": (C, {"geometry_type": "CUBE"}), "concentration": (C, {"concentration_model_fieldhalos": "LUDLOW"}),
                  "truncation": (C, {"truncation_model_fieldhalos": "RN"}), "binned profile": (ctx.get(ROOT + "cdm", "CDMBinned"), {"halo_mass_profile": "PT_MASS"}),
                  "warm space": (lambda *a, **k: ctx.get(ROOT + "wdm", "WDM")(0.5, 1.5, 8.0, c_host=5.0, **k), {"subhalo_spatial_distribution": "NFW"})}[case]
        ctx.raises(lambda: fn(0.5, 1.5, **kw), Exception, label="an unknown option is refused")


@harness(NUM + "; two lens configurations, own concentration and truncation models, with and without massive galaxies")
def correlated(ctx):
    rec = Rec(ctx)
    k = ctx.choice("case", [(0.5, 1.5, "DOUBLE_CONE", None, None), (0.3, 2.0, "CYLINDER", 5.0, OTHER)])
    n = numbers(ctx)
    s = {"z_lens": k[0], "z_source": k[1], "geometry_type": k[2], "kwargs_cosmo": k[4]}
    s.update({x: n[x] for x in ("log_mlow", "log_mhigh", "cone_opening_angle_arcsec", "log_m_host", "LOS_normalization")})
    s["delta_power_law_index"] = ctx.real("delta", -0.5, 0.5)
    s["scale_2halo_boost_factor"] = ctx.real("boost", 0, 5)
    s["mass_threshold_sis"] = None if k[3] is None else ctx.real("threshold", 1e9, 1e12)
    s["concentration_model"], s["kwargs_concentration_model"] = "CUSTOM", {"custom_class": rec.Relation, "some_argument": 0.75}
    s["truncation_model"], s["kwargs_truncation_model"] = type("A", (Cut,), {}), {"my_norm": 2.5}
    res = call(ctx, ctx.get(ROOT + "cdm", "CDMCorrelatedStructure"), s)
    d = rec.calls[0]
    volume(ctx, rec, d, s)
    P = populations(d)
    ctx.check(list(P) == ["TWO_HALO"] and len(P["TWO_HALO"]) == 1, "only halos correlated with the host")
    ctx.check(P["TWO_HALO"][0][0] is ctx.get("pyHalo.Rendering.MassFunctions.density_peaks", "ShethTormen"), "mass function")
    masses(ctx, P["TWO_HALO"], dict({x: s[x] for x in ("log_mlow", "log_mhigh", "log_m_host", "LOS_normalization", "delta_power_law_index")}, m_pivot=10 ** 8), "TWO_HALO")
    spatial(ctx, d, s, None)
    for key in ("truncation_model_subhalos", "truncation_model_field_halos"):
        got = d["kwargs_halo_model"][key]
        ctx.check(type(got) is s["truncation_model"] and got.kw.get("lens_cosmo") is d["lens"], "truncation model")
        ctx.check(got.kw.get("my_norm") == 2.5, "arguments of the truncation model")
    for key in ("concentration_model_subhalos", "concentration_model_field_halos"):
        got = d["kwargs_halo_model"][key]
        ctx.check(type(got) is rec.Relation and got.kw.get("cosmo") is rec.cosmo.astropy and got.kw.get("some_argument") == 0.75, "concentration model")
    ctx.check(d["mdef_subhalos"] == "TNFW" and d["mdef_field_halos"] == "TNFW", "mass profile")
    lineage(rec, res, d["result"].halos[0].unique_tag, [] if k[3] is None else [("SIS_injection", {"mass_threshold": s["mass_threshold_sis"]})], ctx)


@harness(NUM + "; amplitudes of the two mass bins and of their concentrations free", budget=120)
def binned(ctx):
    rec = Rec(ctx)
    k = ctx.choice("case", [("DOUBLE_CONE", "TNFW", "linear", True, "HYBRID_INFALL", False, None, "TRUNCATION_GALACTICUS"), ("CYLINDER", "NFW", "log", True, Infall, True, 0.03, "class")])
    n = numbers(ctx, z_lens=0.5, z_source=1.5)
    s = {x: n[x] for x in ("z_lens", "z_source", "sigma_sub", "shmf_log_slope", "cone_opening_angle_arcsec", "log_m_host", "LOS_normalization")}
    s.update(amplitudes(ctx, k[2]))
    s.update(scalings(ctx))
    s.update(geometry_type=k[0], halo_mass_profile=k[1], infall_redshift_model=k[4], lens_plane_spacing=k[6], c_host=ctx.real("c_host", 2, 20))
    s.update(tidal(ctx, Cut if k[7] == "class" else k[7]))
    if k[4] is Infall:
        s["kwargs_infall_model"] = {"mine": 3.5}
    s["scale_mass_function_low"], s["scale_mass_function_high"] = ctx.real("low", 0, 5), ctx.real("high", 0, 5)
    s["log10_mc_low"], s["log10_mc_high"] = ctx.real("mc low", 0, 2), ctx.real("mc high", 0, 2)
    s["beta"], s["zeta"], s["concentration_scatter_dex"] = ctx.real("beta", -1, 2), ctx.real("zeta", -1, 1), ctx.real("scatter", 0, 0.5)
    s["concentration_model_subhalos"] = s["concentration_model_fieldhalos"] = "BINNED_HALO_MASS"
    M = ctx.load("pyHalo.concentration_models")
    ctx.patch(M, "BinnedHaloMass", rec.Relation)
    if k[5]:
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": 5.0, "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    res = call(ctx, ctx.get(ROOT + "cdm", "CDMBinned"), s)
    d = rec.calls[0]
    volume(ctx, rec, d, s)
    infall(ctx, d, s)
    spatial(ctx, d, dict(s, subhalo_spatial_distribution="UNIFORM"), None)
    truncation(ctx, rec, d, s, s["c_host"])
    same(ctx, [d["mdef_subhalos"], d["mdef_field_halos"]], [k[1], k[1]], "mass profile")
    for key in ("concentration_model_subhalos", "concentration_model_field_halos"):
        c = d["kwargs_halo_model"][key]
        some(ctx, c.kw, {"normalization_list": [10 ** s["log10_mc_low"], 10 ** s["log10_mc_high"]], "beta_list": [s["beta"]] * 2, "zeta_list": [s["zeta"]] * 2, "redshift_evolution": "RHO_CRIT", "log10_mass_bins": [[6, 8], [8, 10.7]], "scatter_dex": s["concentration_scatter_dex"]}, "binned concentrations")
    P = populations(d)
    ctx.check(sorted(P) == ["LINE_OF_SIGHT", "SUBHALOS", "TWO_HALO"] and all(len(v) == 2 for v in P.values()), "two mass bins of each population")
    PL, ST = ctx.get("pyHalo.Rendering.MassFunctions.mass_function_base", "CDMPowerLaw"), ctx.get("pyHalo.Rendering.MassFunctions.density_peaks", "ShethTormen")
    base = s["sigma_sub"] if k[2] == "linear" else 10 ** s["log10_sigma_sub"]
    for name, rows in P.items():
        for row in rows:
            ctx.check(row[0] is (PL if name == "SUBHALOS" else ST), "mass function")
        rows = sorted(rows, key=lambda r: r[1]["log_mlow"])
        for row, lim, scale in zip(rows, ((6, 8), (8, 10.7)), (s["scale_mass_function_low"], s["scale_mass_function_high"])):
            want = {"log_mlow": lim[0], "log_mhigh": lim[1], "m_pivot": 10 ** 8, "log_m_host": s["log_m_host"], "delta_power_law_index": 0.0, "draw_poisson": True}
            if name == "SUBHALOS":
                want.update(sigma_sub=scale * base, power_law_index=s["shmf_log_slope"], host_scaling_factor=s["host_scaling_factor"], redshift_scaling_factor=s["redshift_scaling_factor"])
            else:
                want.update(LOS_normalization=scale * s["LOS_normalization"])
            masses(ctx, [row], want, name)
    lineage(rec, res, d["result"].halos[0].unique_tag, [("add_globular_clusters", s["kwargs_globular_clusters"])] if k[5] else [], ctx)


def mass_function(ctx, name, user):
    return ctx.get("pyHalo.mass_function_models", "preset_mass_function_models")(name, user)


def check_wdm(ctx, rec, d, s, c_host, models, los_delta=True):
    volume(ctx, rec, d, s)
    infall(ctx, d, s)
    spatial(ctx, d, s, c_host)
    truncation(ctx, rec, d, s, c_host)
    same(ctx, d["mdef_subhalos"], s.get("mdef_subhalos", "TNFW"), "mass profile of the subhalos")
    same(ctx, d["mdef_field_halos"], s.get("mdef_field_halos", "TNFW"), "mass profile of the field halos")
    some(ctx, d["kwargs_halo_model"]["kwargs_density_profile"], s.get("kwargs_density_profile", {}), "arguments of the density profile")
    P = populations(d)
    names = ["LINE_OF_SIGHT", "SUBHALOS"] + (["TWO_HALO"] if s.get("two_halo_contribution", True) else [])
    ctx.check(sorted(P) == names and all(len(v) == 1 for v in P.values()), "exactly the requested populations")
    both = {"log_mlow": s["log_mlow"], "log_mhigh": s["log_mhigh"], "m_pivot": 10 ** 8, "draw_poisson": s.get("draw_poisson", True), "delta_power_law_index": 0.0, "log_mc": s["log_mc"]}
    sub = dict(both, power_law_index=s["shmf_log_slope"], host_scaling_factor=s.get("host_scaling_factor", 0.55), redshift_scaling_factor=s.get("redshift_scaling_factor", 0.37), **amplitude(s))
    if s.get("log10_dNdA") is None:
        sub["log_m_host"] = s["log_m_host"]
    for n, rows in P.items():
        cls, kw = models[0] if n == "SUBHALOS" else models[1]
        ctx.check(rows[0][0] is cls, "mass function")
        masses(ctx, rows, dict(kw, **(sub if n == "SUBHALOS" else dict(both, LOS_normalization=s["LOS_normalization"], log_m_host=s["log_m_host"]))), n)


WDM = [dict(amp="linear", space="PROJECTED_NFW", c=False, sub="TRUNCATION_GALACTICUS", infall="HYBRID_INFALL", geo="DOUBLE_CONE", mf=("SHMF_LOVELL2020", "LOVELL2020"), mdef=("TNFW", "TNFW")),
       dict(amp="log", space="UNIFORM", c=True, sub="class", infall="DIRECT_INFALL", geo="CYLINDER", mf=("POWER_LAW_TURNOVER_SHMF", "POWER_LAW_TURNOVER"), mdef=("NFW", "TNFW"), no2=True, noisy=False, gc=True, abc=True, lazar=False),
       dict(amp="log per area", space="PROJECTED_NFW", c=True, sub="TRUNCATION_GALACTICUS_ZINFALL", infall=Infall, geo="CONE", mf=("SHMF_SCHIVE2016", "SCHIVE2016"), mdef=("COREDTNFW", "ULDM"), sis=True, gc=True, spacing=0.05, cosmo=OTHER),
       dict(amp="both logs", space="UNIFORM", c=False, sub="TRUNCATION_GALACTICUS_KEELEY24", infall="DIRECT_INFALL_CLUSTER", geo="DOUBLE_CONE", mf=("LOVELL2020", "LOVELL2014"), mdef=("TNFW", "TNFW"), sis=True)]


def wdm_settings(ctx, rec, k):
    s = numbers(ctx, z_lens=0.4, z_source=1.75, log_mc=ctx.real("log_mc", 5, 10))
    s.update(amplitudes(ctx, k["amp"]))
    s.update(scalings(ctx))
    s.update(tidal(ctx, Cut if k["sub"] == "class" else k["sub"], Cut if k["sub"] == "class" else "TRUNCATION_RN"))
    s = custom(ctx, rec, s)
    abc = lambda i: {"a_wdm": 1.0 + i, "b_wdm": 0.5 + i, "c_wdm": -1.5 + i} if k.get("abc") else {}
    s.update(subhalo_spatial_distribution=k["space"], geometry_type=k["geo"], infall_redshift_model=k["infall"], two_halo_contribution=not k.get("no2"), two_halo_Lazar_correction=k.get("lazar", True), draw_poisson=k.get("noisy", True),
             kwargs_cosmo=k.get("cosmo"), lens_plane_spacing=k.get("spacing"), mdef_subhalos=k["mdef"][0], mdef_field_halos=k["mdef"][1], kwargs_density_profile={"core": 0.5}, mass_function_model_subhalos=k["mf"][0],
             mass_function_model_fieldhalos=k["mf"][1], kwargs_mass_function_subhalos=abc(0), kwargs_mass_function_fieldhalos=abc(1))
    s["c_host"] = ctx.real("c_host", 2, 20) if k["c"] else None
    if not isinstance(k["infall"], str):
        s["kwargs_infall_model"] = {"mine": 3.5}
    if k.get("sis"):
        s.update(mass_threshold_sis=ctx.real("threshold", 1e9, 1e12))
    if k.get("gc"):
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": ctx.real("gc", 4, 6), "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    steps = ([("SIS_injection", {"mass_threshold": s["mass_threshold_sis"]})] if k.get("sis") else []) + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if k.get("gc") else [])
    return s, steps


@harness(NUM + ", half-mode mass; four combinations of mass functions, spatial distributions, truncation, concentration and infall models, geometries, mass profiles, populations and flags", budget=150)
def wdm(ctx):
    k = ctx.choice("configuration", WDM)
    rec = Rec(ctx)
    s, steps = wdm_settings(ctx, rec, k)
    W = ctx.get(ROOT + "wdm", "WDM")
    if ctx.flag("after another call"):
        W(0.4, 2.0, 6.5, c_host=7.0, log_m_host=12.5, kwargs_mass_function_subhalos={}, mass_function_model_subhalos="SHMF_LOVELL2014", concentration_model_subhalos="BOSE2016")
        del rec.ext[:]
    res = call(ctx, W, s)
    d = rec.calls[-1]
    models = [mass_function(ctx, k["mf"][0], s["kwargs_mass_function_subhalos"]), mass_function(ctx, k["mf"][1], s["kwargs_mass_function_fieldhalos"])]
    check_wdm(ctx, rec, d, s, s["c_host"] if k["c"] else rec.Relation.c(10 ** s["log_m_host"], s["z_lens"]), models)
    concentration(ctx, rec, d, s, {"log_mc": s["log_mc"]})
    lineage(rec, res, d["result"].halos[0].unique_tag, steps, ctx)


@harness("half-mode mass free; the warm relations of the literature and the user's own choice of cold relation", budget=120)
def warm_relations(ctx):
    rec = Rec(ctx)
    W = ctx.get(ROOT + "wdm", "WDM")
    mc = ctx.real("log_mc", 5, 10)
    name, kw, cold = ctx.choice("relation", [("BOSE2016", {}, "ConcentrationDiemerJoyce"), ("BOSE2016_LUDLOW", {}, "ConcentrationLudlow"), ("LAROCHE2022", {}, "ConcentrationDiemerJoyce"),
                                             ("WDM_POLYNOMIAL", {"c_scale": 12.0}, "ConcentrationDiemerJoyce"), ("WDM_POLYNOMIAL", "Ludlow", "ConcentrationLudlow"), ("WDM_HYPERBOLIC", {"a": 0.5, "b": 1.0}, "ConcentrationDiemerJoyce"), ("LUDLOW_WDM", {"dlogT_dlogk": -2.0}, "ConcentrationLudlow")])
    A = "pyHalo.Halos.concentration"
    if kw == "Ludlow":
        kw = {"concentration_cdm_class": ctx.get(A, "ConcentrationLudlow")}
    which = ctx.choice("population", ["subhalos", "fieldhalos"])
    W(0.5, 1.5, mc, c_host=6.0, **{"concentration_model_" + which: name, "kwargs_concentration_model_" + which: dict(kw)})
    h = rec.calls[0]["kwargs_halo_model"]["concentration_model_subhalos" if which == "subhalos" else "concentration_model_field_halos"]
    ctx.check(isinstance(h, ctx.get("pyHalo.concentration_models", "preset_concentration_models")(name, {"dlogT_dlogk": -2.0})[0]), "selected relation")
    ctx.check(type(h._cdm_concentration).__name__ == cold, "cold relation it suppresses")
    ctx.close(h._log_mc, mc, "half-mode mass of the relation")


@harness(NUM + ", half-mode mass and mixed fraction free; default or own suppression parameters; after another call", budget=120)
def mixed(ctx):
    rec = Rec(ctx)
    W = ctx.get(ROOT + "wdm", "WDM_mixed")
    case = ctx.choice("case", [("own", "class", "CYLINDER", OTHER), ("default", "TRUNCATION_GALACTICUS", "DOUBLE_CONE", None), ("after own", "TRUNCATION_GALACTICUS", "DOUBLE_CONE", None)])
    if case[0] == "after own":
        W(0.4, 2.0, 6.5, 0.9, kwargs_mass_function_subhalos={"a_wdm": 3.0}, kwargs_mass_function_fieldhalos={"b_wdm": 7.0})
        W(0.4, 2.0, 6.5, 0.8)
    s = numbers(ctx, z_lens=0.5, z_source=1.5, log_mc=ctx.real("log_mc", 5, 10))
    s.update(geometry_type=case[2], kwargs_cosmo=case[3], kwargs_density_profile={"core": 0.5})
    s.update(tidal(ctx, Cut if case[1] == "class" else case[1], Cut if case[1] == "class" else "TRUNCATION_RN"))
    s = custom(ctx, rec, s)
    frac = ctx.real("fraction", 0, 1)
    if case[0] == "own":
        s["kwargs_mass_function_subhalos"] = {"a_wdm": ctx.real("a", 0.1, 5), "b_wdm": 0.6, "c_wdm": -2.0}
        s["kwargs_mass_function_fieldhalos"] = {"b_wdm": ctx.real("b", 0.1, 2)}
    res = call(ctx, W, s, mixed_DM_frac=frac)
    d = rec.calls[-1]
    full = lambda k: dict(dict(a_wdm=0.5, b_wdm=0.8, c_wdm=-3.0, mixed_DM_frac=frac), **s.get(k, {}))
    models = [mass_function(ctx, "SHMF_MIXED_WDM_TURNOVER", full("kwargs_mass_function_subhalos")), mass_function(ctx, "MIXED_WDM_TURNOVER", full("kwargs_mass_function_fieldhalos"))]
    s2 = dict(s, subhalo_spatial_distribution="PROJECTED_NFW")
    check_wdm(ctx, rec, d, s2, rec.Relation.c(10 ** s["log_m_host"], s["z_lens"]), models)
    concentration(ctx, rec, d, s, {"log_mc": s["log_mc"]})
    lineage(rec, res, d["result"].halos[0].unique_tag, [], ctx)


GENERAL = [dict(amp="linear", space="PROJECTED_NFW", c=False, sub="TRUNCATION_GALACTICUS", infall="HYBRID_INFALL", geo="DOUBLE_CONE", mdef=("TNFW", "TNFW"), slope=-2.0),
           dict(amp="log", space="UNIFORM", c=True, sub="class", infall=Infall, geo="CYLINDER", mdef=("NFW", "TNFW"), slope=-3.25, gc=True, lazar=False, cosmo=OTHER, sis=False),
           dict(amp="both logs", space="PROJECTED_NFW", c=True, sub="TRUNCATION_GALACTICUS_KEELEY24", infall="DIRECT_INFALL", geo="DOUBLE_CONE", mdef=("TNFW", "COREDTNFW"), slope=-1.5, gc=True)]


@harness(NUM + ", half-mode mass free; three slopes of the transfer function; three combinations of the options", budget=120)
def general(ctx):
    k = ctx.choice("configuration", GENERAL)
    rec = Rec(ctx)
    s = numbers(ctx, z_lens=0.4, z_source=1.75, log_mc=ctx.real("log_mc", 5, 10))
    s.update(amplitudes(ctx, k["amp"]))
    s.update(scalings(ctx))
    s.update(tidal(ctx, Cut if k["sub"] == "class" else k["sub"], Cut if k["sub"] == "class" else "TRUNCATION_RN"))
    s.update(subhalo_spatial_distribution=k["space"], geometry_type=k["geo"], infall_redshift_model=k["infall"], two_halo_Lazar_correction=k.get("lazar", True), kwargs_cosmo=k.get("cosmo"), mdef_subhalos=k["mdef"][0], mdef_field_halos=k["mdef"][1], kwargs_density_profile={"core": 0.5})
    s["c_host"] = ctx.real("c_host", 2, 20) if k["c"] else None
    s["mass_threshold_sis"] = None if k.get("sis") is False else ctx.real("threshold", 1e9, 1e12)
    if k.get("gc"):
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": 5.0, "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    if not isinstance(k["infall"], str):
        s["kwargs_infall_model"] = {"mine": 3.5}
    res = call(ctx, ctx.get(ROOT + "wdm", "WDMGeneral"), s, dlogT_dlogk=k["slope"])
    d = rec.calls[-1]
    models = [mass_function(ctx, n, {"dlogT_dlogk": k["slope"]}) for n in ("STUCKER_SHMF", "STUCKER")]
    check_wdm(ctx, rec, d, s, s["c_host"] if k["c"] else rec.Relation.c(10 ** s["log_m_host"], s["z_lens"]), models)
    for key in ("concentration_model_subhalos", "concentration_model_field_halos"):
        c = d["kwargs_halo_model"][key]
        ctx.check(isinstance(c, ctx.get("pyHalo.Halos.concentration", "ConcentrationLudlowWDM")), "relation of a general transfer function")
        ctx.close(c._log_mc, s["log_mc"], "half-mode mass of the relation")
        ctx.close(c._dlogT_dlogk, k["slope"], "slope of the transfer function")
    steps = ([("SIS_injection", {"mass_threshold": s["mass_threshold_sis"]})] if s["mass_threshold_sis"] is not None else []) + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if k.get("gc") else [])
    lineage(rec, res, d["result"].halos[0].unique_tag, steps, ctx)


def host_density(ctx, lc, c, m, r, z):
    """projected density of the host's NFW halo at radius r (kpc), up to a common factor"""
    rho, rs, _ = lc.NFW_params_physical(m, c(m, 0.5), z)
    x = r / rs
    u = ctx.sqrt(1 - x * x)
    F = 0.5 * ctx.log((1 + u) / (1 - u)) / u
    return rho * rs * (1 - F) / (x * x - 1)


@harness(NUM + ", particle mass 1e-23 to 1e-20 eV (four values), amplitude, sizes and velocity of the fluctuations free; with and without fluctuations; host at 13.3 or 12.6", budget=150)
def ultralight(ctx):
    rec = Rec(ctx)
    U = ctx.get(ROOT + "uldm", "ULDM")
    lm, flucs, geo, cosmo, sub, host, amp = ctx.choice("case", [(-22.0, True, "DOUBLE_CONE", None, "TRUNCATION_GALACTICUS", 12.6, {}), (-21.25, False, "CYLINDER", OTHER, "class", None, {"log10_sigma_sub": None}), (-23.0, True, "DOUBLE_CONE", None, "class", 13.3, {"log10_dNdA": None}), (-20.0, False, "DOUBLE_CONE", None, "TRUNCATION_GALACTICUS", None, "both")])
    s = numbers(ctx, z_lens=0.5, z_source=1.5)
    if host:
        s["log_m_host"] = host
    s.update({k: ctx.real(k, -3, 1) for k in (("log10_sigma_sub", "log10_dNdA") if amp == "both" else amp or ("log10_sigma_sub",))})
    s.update(geometry_type=geo, kwargs_cosmo=cosmo)
    s.update(tidal(ctx, Cut if sub == "class" else sub, Cut if sub == "class" else "TRUNCATION_RN"))
    s = custom(ctx, rec, s)
    more = {"log10_m_uldm": lm, "flucs": flucs, "uldm_plaw": ctx.real("plaw", 0.1, 1)}
    if flucs:
        more.update(log10_fluc_amplitude=ctx.real("amplitude", -3, 0), fluctuation_size_scale=ctx.real("size", 0.01, 2), fluctuation_size_dispersion=ctx.real("dispersion", 0, 1), n_fluc_scale=ctx.real("nf", 0.1, 3), velocity_scale=ctx.real("v", 50, 500),
                    flucs_shape="ring", flucs_args={"angle": 0.0, "rmin": 0.9, "rmax": 1.1}, n_cut=3000, r_ein=1.25)
    if ctx.choice("mdef", [0, 1]) == 1:
        more["mdef_halos"] = "TNFW"
    res = call(ctx, U, s, **more)
    d = rec.calls[-1]
    m22 = 10 ** (lm + 22)
    mdef = more.get("mdef_halos", "ULDM")
    want = dict(s, log_mc=__import__("math").log10(1.6e10 * m22 ** (-4 / 3)), subhalo_spatial_distribution="PROJECTED_NFW", mdef_subhalos=mdef, mdef_field_halos=mdef, kwargs_density_profile={"log10_m_uldm": lm, "uldm_plaw": more["uldm_plaw"], "scale_nfw": True})
    P = populations(d)
    low = want.pop("log_mlow")
    got = [kw.pop("log_mlow") for rows in P.values() for _, kw, _, _ in rows if "log_mlow" in kw]
    ctx.check(len(got) >= 2, "mass limits are passed")
    sky = rec.cosmo.astropy
    zeta = lambda z: (18 * ctx.pi ** 2 + 82 * (sky.Om(z) - 1) - 39 * (sky.Om(z) - 1) ** 2) / sky.Om(z)
    for z in (0.25, 0.5, 1.0):
        floor = __import__("math").log10(4.4e7 * m22 ** -1.5 * (1 + z) ** 0.75 * (zeta(z) / zeta(0.0)) ** 0.25)
        for g in got:
            ctx.check(callable(g), "minimum mass depends on redshift")
            ctx.close(g(z), ctx.max(floor, low), "no halos below the larger of the two minimum masses", rtol=1e-9)
    for rows in P.values():
        for _, kw, _, _ in rows:
            kw["log_mlow"] = 6.0
    models = [mass_function(ctx, "SHMF_SCHIVE2016", {}), mass_function(ctx, "SCHIVE2016", {})]
    check_wdm(ctx, rec, d, dict(want, log_mlow=6.0), rec.Relation.c(10 ** s["log_m_host"], s["z_lens"]), models)
    concentration(ctx, rec, d, s, {"log_mc": want["log_mc"]})
    if not flucs:
        lineage(rec, res, d["result"].halos[0].unique_tag, [], ctx)
        return
    lam = 1.2 * 10 ** (-22 - lm) * (100 / more["velocity_scale"])
    size = lam * more["fluctuation_size_scale"]
    lc = d["lens"]
    c = rec.Relation.c
    ref = host_density(ctx, lc, c, 10 ** 13.3, 1.0 * rec.cosmo.kpc_proper_per_asec(0.5), 0.5) / lc.get_sigma_crit_lensing(0.5, 2.0)
    here = host_density(ctx, lc, c, 10 ** s["log_m_host"], 1.25 * rec.cosmo.kpc_proper_per_asec(s["z_lens"]), s["z_lens"]) / lc.get_sigma_crit_lensing(s["z_lens"], s["z_source"])
    amp = 10 ** more["log10_fluc_amplitude"] * m22 ** -0.5 * here / ref
    lineage(rec, res, d["result"].halos[0].unique_tag, [("add_ULDM_fluctuations", {"de_Broglie_wavelength": lam, "fluctuation_size": size, "fluctuation_size_variance": size * more["fluctuation_size_dispersion"], "n_fluc_scale": more["n_fluc_scale"], "shape": "ring",
                                                                                "args": more["flucs_args"], "n_cut": 3000, "fluctuation_amplitude": amp})], ctx)


@harness("fluctuations requested without saying where")
def ultralight_arguments(ctx):
    rec = Rec(ctx)
    lm = ctx.real("lm", -23, -20)
    ctx.assume(lm < -20.5)
    ctx.raises(lambda: ctx.get(ROOT + "uldm", "ULDM")(0.5, 1.5, -22.0, r_tidal=-lm / 100), Exception, label="refused without the region of the fluctuations")


def sidm_settings(ctx, rec, k):
    s = numbers(ctx, z_lens=0.5, z_source=1.5)
    s.update(amplitudes(ctx, k["amp"]))
    s.update(tidal(ctx, Cut if k["sub"] == "class" else k["sub"]))
    s = custom(ctx, rec, s)
    s.update(geometry_type=k["geo"], infall_redshift_model=k["infall"], kwargs_cosmo=k.get("cosmo"))
    if not isinstance(k["infall"], str):
        s["kwargs_infall_model"] = {"mine": 3.5}
    if k.get("gc"):
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": 5.0, "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    return s


SIDM = [dict(amp="linear", sub="TRUNCATION_GALACTICUS", infall="HYBRID_INFALL", geo="DOUBLE_CONE"), dict(amp="log", sub="class", infall=Infall, geo="CYLINDER", gc=True, cosmo=OTHER), dict(amp="log per area", sub="TRUNCATION_GALACTICUS_ZINFALL", infall="DIRECT_INFALL", geo="DOUBLE_CONE", gc=True)]


@harness(NUM + ", collapse probabilities free; three combinations of the options", budget=150)
def collapse(ctx):
    k = ctx.choice("configuration", SIDM)
    rec = Rec(ctx)
    s = sidm_settings(ctx, rec, k)
    s.update(scalings(ctx))
    lone = k["amp"] == "log"
    p = ctx.reals("p", 3, 0, 1)
    s.update(two_halo_Lazar_correction=not lone, draw_poisson=k.get("infall") != "HYBRID_INFALL", c_host=ctx.real("c_host", 2, 20), mass_threshold_sis=ctx.real("threshold", 1e9, 1e12), galaxy_model="SIS" if lone else "GNFW")
    special = {"mass_ranges_subhalos": [[6, 8], [8, 10]], "mass_ranges_field_halos": [[6, 9]], "probabilities_subhalos": [p[0], p[1]], "probabilities_field_halos": [p[2]], "collapsed_halo_profile": "SPL_CORE" if lone else "TNFWC"}
    shape = {"x_core_halo": ctx.real("core", 0.01, 1), "log_slope_halo": -3.0}
    res = call(ctx, ctx.get(ROOT + "sidm", "SIDM_core_collapse"), s, **dict(special, **shape))
    d = rec.calls[-1]
    check_cdm(ctx, rec, d, dict(s, subhalo_spatial_distribution="UNIFORM"), s["c_host"])
    steps = [("SIS_injection", {"mass_threshold": s["mass_threshold_sis"], "galaxy_model": s["galaxy_model"]}), ("core_collapse_by_mass", {x: special[x] for x in special if x != "collapsed_halo_profile"}),
             ("add_core_collapsed_halos", {"indexes": [3, 5, 8], "halo_profile": special["collapsed_halo_profile"], "kwargs_halo": shape})]
    order = [n for n, _, _, _, _ in rec.ext]
    ctx.check(order.index("core_collapse_by_mass") + 1 == order.index("add_core_collapsed_halos"), "halos are selected from the realization they are converted in")
    lineage(rec, res, d["result"].halos[0].unique_tag, steps + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if k.get("gc") else []), ctx)


@harness(NUM + ", cross sections and time scaling free; explicit or fixed mass bins; three combinations of the options", budget=150)
def parametric(ctx):
    k = ctx.choice("configuration", SIDM)
    rec = Rec(ctx)
    s = sidm_settings(ctx, rec, k)
    fixed = ctx.flag("fixed bins")
    x = ctx.reals("cross section", 2, -1, 3)
    tau = ctx.real("time scaling", -1, 1)
    evolving, core = (True, None) if k["amp"] == "linear" else (False, 0.125)
    if fixed:
        res = call(ctx, ctx.get(ROOT + "sidm", "SIDM_parametric_fixedbins"), s, log10_sigma_eff_mlow_8=x[0], log10_sigma_eff_8_mhigh=x[1], log10_subhalo_time_scaling=tau, evolving_profile=evolving, x_core_halo=core)
        bins = [[s["log_mlow"], 8.0], [8.0, s["log_mhigh"]]]
    else:
        bins = [[6.5, 7.5], [7.5, ctx.real("edge", 8, 11)]]
        res = call(ctx, ctx.get(ROOT + "sidm", "SIDM_parametric"), s, log10_mass_ranges=bins, log10_effective_cross_section_list=x, log10_subhalo_time_scaling=tau, evolving_SIDM_profile=evolving, x_core_halo=core)
    d = rec.calls[-1]
    check_cdm(ctx, rec, d, dict(s, subhalo_spatial_distribution="UNIFORM"), 6.0)
    steps = [("toSIDM_from_cross_section", {"mass_bin_list": bins, "log10_effective_cross_section_list": list(x), "log10_subhalo_time_scaling": tau, "evolving_SIDM_profile": evolving, "x_core_halo": core})]
    lineage(rec, res, d["result"].halos[0].unique_tag, steps + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if k.get("gc") else []), ctx)


@harness("minimum mass above 1e8")
def fixed_bins_limit(ctx):
    rec = Rec(ctx)
    low = ctx.real("log_mlow", 8, 10)
    ctx.assume(low > 8)
    ctx.raises(lambda: ctx.get(ROOT + "sidm", "SIDM_parametric_fixedbins")(0.5, 1.5, 1.0, 1.0, log_mlow=low), Exception, label="the fixed bins need masses below 1e8")


@harness(NUM + ", mass ratio, occupation, mass limits of the black holes free; with and without globular clusters", budget=120)
def black_holes(ctx):
    rec = Rec(ctx)
    gc, geo, amp = ctx.choice("case", [(False, "DOUBLE_CONE", "linear"), (True, "CYLINDER", "log")])
    n = numbers(ctx, z_lens=0.5, z_source=1.5)
    s = {x: n[x] for x in n if x != "r_tidal"}
    s.update(amplitudes(ctx, amp))
    s["geometry_type"] = geo
    b = {"log10_mass_ratio": ctx.real("ratio", -6, 0), "log10_occupation_frac": ctx.real("occupation", -4, 0), "log10_mlow_halos_subres": ctx.real("subres", 3, 6), "log10_min_mbh": ctx.real("min", 3, 6), "log10_mass_maximum": ctx.real("max", 6, 9)}
    if gc:
        s.update(add_globular_clusters=True, kwargs_globular_clusters={"log10_mgc_mean": 5.0, "log10_mgc_sigma": 0.5, "rendering_radius_arcsec": 0.3})
    res = call(ctx, ctx.get(ROOT + "mbh", "CDM_plus_BH"), s, **b)
    d = rec.calls[-1]
    check_cdm(ctx, rec, d, dict(s, r_tidal=0.25, subhalo_spatial_distribution="UNIFORM", truncation_model_subhalos="TRUNCATION_GALACTICUS", truncation_model_fieldhalos="TRUNCATION_RN", concentration_model_subhalos="LUDLOW2016", concentration_model_fieldhalos="LUDLOW2016"), 6.0)
    want = {k: v for k, v in b.items() if k != "log10_occupation_frac"}
    want.update(f=10 ** b["log10_occupation_frac"], log_mlow_halos=s["log_mlow"], LOS_normalization=s["LOS_normalization"])
    lineage(rec, res, d["result"].halos[0].unique_tag, [("add_black_holes", want)] + ([("add_globular_clusters", s["kwargs_globular_clusters"])] if gc else []), ctx)
