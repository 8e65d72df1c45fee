TEST_GAP = "The reliably running tests are six point evaluations of isolated helpers; they never build a realization or quantify over the inputs named here."

p("P01", "Ray filtering keeps exactly the massive halos and the halos near a ray",
  """Filtering a realization by mass and by distance to light rays returns exactly those halos whose absolute mass is at
  least the global threshold or whose distance to at least one ray, evaluated at the halo's own comoving distance and in the
  requested unit (angle or transverse comoving kpc), does not exceed the aperture, where the aperture shrinks with the lensing
  weight clipped between its minimum and one when geometric weighting is on. No halo is lost, duplicated or altered, each
  kept halo is the identical object, and the input realization is left unchanged.""",
  ["inputs", "configurations"], "every placement, mass and redshift of the halos and rays, every aperture, threshold, unit and weighting choice",
  "The filter tests need lenstronomy and use one random population; boundary equalities, ties in redshift and several rays are never covered. " + TEST_GAP,
  ["pyHalo/single_realization.py"], [("Realization.filter", "pyHalo/single_realization.py"), ("Realization.halos_at_z", "pyHalo/single_realization.py")],
  ["Realization.filter(...).halos"])

p("P02", "Selecting, splitting and joining realizations are exact set operations on halos",
  """Restricting to a redshift plane, removing light subhalos outside apertures, removing subhalos below a bound mass, splitting at
  a redshift and joining two realizations each return exactly the halos their rule selects: field halos are never dropped by a
  subhalo rule, a split puts every halo in exactly one half, lower redshifts in the first and higher ones in the second (a halo exactly at the split redshift in either), and a join contains every distinct halo of either input exactly once.
  The counts and masses reported per redshift, and the stored arrays of masses, positions, redshifts and flags, always agree element by
  element with the halo list.""",
  ["inputs", "histories"], "all halo populations (masses, positions, redshifts, tags, flags) and all thresholds and split redshifts",
  TEST_GAP, ["pyHalo/single_realization.py"],
  [("filter_subhalos / filter_bound_mass / split_at_z / join / halos_at_z / realization_at_z", "pyHalo/single_realization.py"), ("_reset", "pyHalo/single_realization.py")],
  ["halo lists and cached arrays of the returned realizations"])

p("P03", "Aligning a realization with the source ray shifts each free halo exactly once",
  """Aligning a realization with a ray path moves every halo at or above the minimum redshift that is not marked as fixed by exactly the ray's
  angular position at the halo's comoving distance, leaves fixed halos where they are, and makes the ray path the new rendering centre.
  Aligning an already aligned realization, also after any sequence of filtering, joining, splitting or halo-adding operations on it, changes nothing
  further; the halo objects themselves are shared between a realization and the one aligned from it.""",
  ["inputs", "histories"], "all positions, redshifts and ray paths, and all sequences of operations between two alignments",
  TEST_GAP, ["pyHalo/single_realization.py", "pyHalo/realization_extensions.py"],
  [("shift_background_to_source", "pyHalo/single_realization.py"), ("_has_been_shifted", "pyHalo/single_realization.py")],
  ["halo.x / halo.y before and after"])

p("P04", "The exported lens model lists describe every halo exactly once, in order",
  """The exported list of lens model names, redshifts and keyword arguments always have equal length, contain for each halo in order exactly that halo's own
  profile components at that halo's redshift, and are followed only by mass sheets, one redshift per sheet, present exactly when the correction is enabled.
  Each sheet is centred on the rendering centre evaluated at its own comoving distance.""",
  ["inputs", "configurations"], "all mixtures of single- and multi-component halos, sheet settings and rendering centres", TEST_GAP,
  ["pyHalo/single_realization.py"], [("lensing_quantities", "pyHalo/single_realization.py"), ("_mass_sheet_correction", "pyHalo/single_realization.py")],
  ["Realization.lensing_quantities()"])

p("P05", "Negative mass sheets cancel exactly the mean mass that is rendered",
  """For line-of-sight, subhalo and two-halo populations the convergence of each correction sheet equals minus the requested scale times the expected rendered mass between the
  sheet's mass limits divided by the critical mass of the rendering area on that plane, on the planes of that population, redshift limits applying to the line-of-sight sheets; line-of-sight sheets are never positive, the subhalo sheet lies on the lens plane, and the two-halo population and line-of-sight populations for which no sheets were requested get none.
  With exact subtraction every occupied plane gets minus the mass actually in it over the critical mass of the rendering area.""",
  ["inputs", "configurations"], "all mass ranges, normalisations, slopes, scales and redshift limits", TEST_GAP,
  ["pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/two_halo.py", "pyHalo/single_realization.py"],
  [("convergence_sheet_correction", "pyHalo/Rendering/*.py"), ("_mass_sheet_correction, mass_at_z_exact", "pyHalo/single_realization.py")],
  ["kappa of each sheet"])

p("P06", "Every halo is built with the profile, models and cosmology chosen for its kind",
  """A realization builds each halo with the density profile named for it, using the subhalo concentration and truncation models exactly for subhalos and the field-halo models exactly for
  field halos unless one common model was given, preserves its mass, position, redshift and subhalo status, and gives it an identification tag of its own. The profile requested for subhalos is applied to
  subhalos and the one requested for field halos to field halos, and an unknown profile name is refused.""",
  ["inputs", "configurations"], "all profile names and combinations of subhalo and field-halo models", TEST_GAP,
  ["pyHalo/single_realization.py", "pyHalo/pyhalo.py"], [("_load_halo_model", "pyHalo/single_realization.py"), ("pyHalo.render", "pyHalo/pyhalo.py")],
  ["type and attributes of the constructed halos"])

p("P07", "Power-law populations have the analytic number and mass moments",
  """For a power-law mass function the expected number and expected total mass of objects equal the closed-form integrals of the normalised power law between the mass limits, including at the logarithmic
  slopes where the integral becomes a logarithm, scale linearly with the normalisation, and add up over adjacent mass ranges. The number of rendered objects is a Poisson draw about, or the rounded value of, that expectation.""",
  ["inputs"], "all normalisations, slopes and mass limits", TEST_GAP,
  ["pyHalo/Rendering/MassFunctions/mass_function_base.py", "pyHalo/Rendering/MassFunctions/util.py"],
  [("integrate_power_law_analytic / CDMPowerLaw", "pyHalo/Rendering/MassFunctions")], ["n_mean, first_moment, draw()"])

p("P08", "Drawn masses stay within the limits and follow the mass function",
  """Every mass drawn from a mass function lies between the requested minimum and maximum, for every random number, and the fraction of unsuppressed draws below a given mass equals the normalised integral of the power law up to that mass.
  A suppressed mass function returns a subset of the parent draw, keeping an object exactly when its random number is below the suppression at its mass.""",
  ["inputs", "schedules"], "all random numbers in [0, 1), slopes and mass limits", TEST_GAP,
  ["pyHalo/Rendering/MassFunctions/mass_function_base.py", "pyHalo/Rendering/MassFunctions/density_peaks.py", "pyHalo/Rendering/MassFunctions/util.py", "pyHalo/Rendering/MassFunctions/delta_function.py"],
  [("_sample / _draw / thinning", "pyHalo/Rendering/MassFunctions")], ["draw()"])

p("P09", "Warm-dark-matter suppression only removes structure, and only below the cutoff",
  """Every mass-function suppression lies in (0, 1] for negative outer exponents, is non-decreasing in halo mass and non-increasing in the half-mode mass, takes its documented functional form, and a mixed-dark-matter suppression moves from the pure cold case to the pure warm case monotonically in the mixing fraction.
  The expected number and mass of a suppressed population never exceed those of the unsuppressed one.""",
  ["inputs"], "all masses, half-mode masses and suppression parameters", TEST_GAP,
  ["pyHalo/Rendering/MassFunctions/mass_function_base.py", "pyHalo/Rendering/MassFunctions/density_peaks.py", "pyHalo/Rendering/MassFunctions/util.py", "pyHalo/Rendering/MassFunctions/stucker.py"],
  [("WDM_suppression / mixed suppression", "pyHalo/Rendering/MassFunctions/util.py")], ["suppression, n_mean, first_moment"])

p("P10", "Population amplitudes follow their normalisation laws",
  """The subhalo amplitude is the projected number density times the rendering area on the lens plane, scaled with host mass and redshift by the documented powers and unscaled when the density is given directly; the line-of-sight amplitude is the mean mass function times the plane's volume times the requested normalisation,
  with the two-halo excess applied only around the main deflector. Changing the slope tilt never changes the mass function at the pivot mass, and the amplitude is linear in the user normalisation.""",
  ["inputs", "configurations"], "all host masses, redshifts, slopes, normalisations and areas", TEST_GAP,
  ["pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/two_halo.py", "pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/MassFunctions/density_peaks.py", "pyHalo/Rendering/MassFunctions/mass_function_base.py"],
  [("normalization", "pyHalo/Rendering")], ["normalisation passed to the mass function"])

p("P11", "Rendered populations are complete, aligned and correctly labelled",
  """Rendering returns masses, positions, 3D radii, redshifts and subhalo flags of equal length for every population; subhalos sit at the lens redshift and are flagged as such, line-of-sight and two-halo objects are not flagged, and line-of-sight objects lie only on the lens planes in front of the source.
  Combining several populations concatenates them without loss, so that object i's mass, position, redshift and flag all come from the same draw.""",
  ["inputs", "configurations"], "all draws, all numbers of objects per plane and all lists of populations", TEST_GAP,
  ["pyHalo/Rendering/halo_population.py", "pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/two_halo.py"],
  [("HaloPopulation.render", "pyHalo/Rendering/halo_population.py")], ["render() return values"])

p("P12", "Lens planes tile the line of sight to the source and include the deflector plane",
  """The line-of-sight planes are strictly increasing, evenly spaced by the requested spacing up to the lens redshift and from it to the source, for redshifts quoted to two decimals; they include the main deflector plane, stay below the source redshift, and each carries the thickness to the next plane, so that together they leave neither gaps nor overlaps.""",
  ["inputs"], "all lens and source redshifts and spacings", TEST_GAP,
  ["pyHalo/pyhalo.py", "pyHalo/utilities.py"], [("generate_lens_plane_redshifts", "pyHalo/utilities.py")], ["redshift and thickness arrays"])

p("P13", "Objects are placed inside the rendering volume with consistent units",
  """Uniformly distributed objects always lie within the rendering radius of their plane, with a density per unit area that does not depend on the radius; projected-NFW subhalos lie within the requested projected radius and inside the host's virial radius; positions correlated with a map lie on its non-zero pixels, drawn with probability proportional to the map, up to the smoothing scale of a fraction of a pixel.
  The returned coordinates are the kpc positions divided by the plane's kpc per arcsecond, and asking for zero objects returns empty coordinates.""",
  ["inputs", "schedules"], "all random numbers, radii and redshifts", TEST_GAP,
  ["pyHalo/Rendering/SpatialDistributions/uniform.py", "pyHalo/Rendering/SpatialDistributions/nfw.py", "pyHalo/Rendering/SpatialDistributions/correlated.py"],
  [("draw", "pyHalo/Rendering/SpatialDistributions")], ["draw()"])

p("P14", "The rendering volume has the documented shape",
  """The double cone opens with constant angle up to the lens and closes continuously towards the source, ending at the documented fraction; the single cone keeps its angle; the cylinder keeps its comoving radius equal to the cone's at the lens. The physical and comoving radius, area and volume element of a plane are mutually consistent,
  positive in front of the source and linear in the opening angle (areas quadratically).""",
  ["inputs", "configurations"], "all redshifts, opening angles and lens configurations", TEST_GAP,
  ["pyHalo/Cosmology/geometry.py"], [("Geometry.rendering_scale and area/volume methods", "pyHalo/Cosmology/geometry.py")], ["Geometry methods"])

p("P15", "Cosmological queries do not depend on the history of earlier queries",
  """Each distance, angular scale and age query returns the value of the underlying cosmology for its own arguments whatever was asked before, in the documented units, to the accuracy of the tables inside their range; an angular scale in arcsec is the inverse of kpc per arcsec, and the age of a halo is the time elapsed between its formation and observation redshifts and zero if it is not yet formed.""",
  ["histories", "inputs"], "all query sequences and redshifts", TEST_GAP,
  ["pyHalo/Cosmology/cosmology.py"], [("memoised distance methods", "pyHalo/Cosmology/cosmology.py")], ["return values"])

p("P16", "Lensing unit conversions are mutually inverse and dimensionally consistent",
  """Critical surface densities in different units describe the same physical density, the physical and angular descriptions of an NFW halo convert into each other, the NFW normalisation encloses exactly the halo mass within its virial radius, the virial radius encloses the stated overdensity, and truncating at overdensity N scales as N to the minus one third.
  Two-plane quantities reduce to the lens-source ones when the first plane is the observer's lens.""",
  ["inputs"], "all masses, concentrations, redshifts and cosmologies", TEST_GAP,
  ["pyHalo/Halos/lens_cosmo.py"], [("LensCosmo conversions", "pyHalo/Halos/lens_cosmo.py")], ["LensCosmo methods"])

p("P17", "Dark-matter particle conversions are exact inverses and monotone",
  """Converting a thermal relic mass to a half-mode mass and back returns the input, the half-mode mass decreases with particle mass with the documented power, half-mode mass and wavenumber convert consistently, and numerical inverses used by the package (inverse logarithmic derivative, cubic root, inverse sampling) satisfy the equation they invert.""",
  ["inputs"], "all particle and half-mode masses", TEST_GAP,
  ["pyHalo/Halos/lens_cosmo.py", "pyHalo/utilities.py"], [("mhm_to_fsl, halfmode/thermal conversions", "pyHalo/Halos/lens_cosmo.py")], ["return values"])

p("P18", "Non-NFW halo profiles conserve the mass they replace",
  """A halo rendered as a cored power law, generalized NFW, pseudo-Jaffe, core-collapsed, globular-cluster, Gaussian, black-hole or isothermal profile is normalised such that its mass within its defining radius equals the mass it was given (rescaled where a rescaling was applied), for every slope and core size, and its lensing arguments carry its own position and scales; a cored NFW keeps the density normalisation of the NFW halo it replaces, an isothermal sphere has the documented fraction of the maximum circular velocity, and a massive galaxy hosted by a subhalo takes its truncation radius as scale.""",
  ["inputs"], "all masses, slopes, core sizes, concentrations and positions", TEST_GAP,
  ["pyHalo/Halos/HaloModels"], [("profile normalisations", "pyHalo/Halos/HaloModels/*.py")], ["lenstronomy_params"])

p("P19", "Derived halo quantities are evaluated once and rescaled once",
  """Repeated queries of one halo return identical concentration, infall redshift, bound mass, profile and lensing arguments even when the underlying models are random; subhalos are evaluated at infall and field halos at their own redshift. A normalisation rescaling of an NFW, truncated NFW, cored NFW or imported halo is applied to density, mass and lensing arguments exactly once, whatever the order of queries, unless it is explicitly forced.""",
  ["histories", "inputs"], "all query orders and random model outputs", TEST_GAP,
  ["pyHalo/Halos/halo_base.py", "pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/HaloModels/NFW.py"], [("cached properties, rescale_normalization", "pyHalo/Halos/halo_base.py")], ["halo properties"])

p("P20", "Infall redshifts precede the lens and stay within the sampled range",
  """Every subhalo's infall redshift is at least the lens redshift and at most the configured (for the tabulated model: tabulated) extent above it, for all subhalo and host masses, also when the mass ratio falls outside the calibrated range (the model of infall at the lens gives the lens redshift itself); the mean and scatter follow the documented functions of the clamped mass ratio. The time since infall is the age difference between observation and infall and is never negative.""",
  ["inputs", "schedules"], "all masses, lens redshifts and random draws", TEST_GAP,
  ["pyHalo/Halos/accretion.py", "pyHalo/Halos/halo_base.py", "pyHalo/Halos/lens_cosmo.py"], [("infall model classes", "pyHalo/Halos/accretion.py")], ["z_infall, time_since_infall"])

p("P21", "Concentrations respect their floor, median relation and warm suppression",
  """Every concentration is at least the universal minimum; with scatter off it equals the documented median relation, for a scalar mass and element by element for an array of masses, and the scatter is multiplicative about that median with the configured width; tabulating the relation does not change it beyond the table's resolution, whatever was asked before. The warm-dark-matter factor lies in (0, 1], is non-decreasing in mass and approaches one well above the cutoff mass, apart from the documented mild redshift factor; the warm concentration is the cold one times that factor (the constant model returns its constant and has no floor).""",
  ["inputs"], "all masses, redshifts, half-mode masses and scatter draws", TEST_GAP,
  ["pyHalo/Halos/concentration.py", "pyHalo/concentration_models.py"], [("nfw_concentration", "pyHalo/Halos/concentration.py")], ["nfw_concentration()"])

p("P22", "Truncation radii follow their scaling laws",
  """Each truncation model returns a positive radius with its documented dependence: the overdensity models enclose the requested multiple of the critical density at the halo's (infall) redshift, the splashback model is the published multiple of the radius enclosing 200 times the mean matter density at the halo's redshift, and the Roche model is its norm times its powers of mass and three-dimensional radius.
  The scale-radius model is a fixed multiple of the scale radius, the fixed model returns the given number, and the mean-density model is its norm times the power of concentration over median concentration, in scale radii, with Gaussian scatter of the requested relative width when asked.""",
  ["inputs"], "all masses, radii, redshifts and model parameters", TEST_GAP,
  ["pyHalo/Halos/tidal_truncation.py"], [("truncation_radius", "pyHalo/Halos/tidal_truncation.py")], ["truncation_radius_halo()"])

p("P23", "Tidal mass loss never creates mass and is clamped to its calibrated range",
  """The bound mass predicted by the tidal-evolution models never exceeds the infall mass, for every draw and every input inside or outside the calibrated range, the Johnson-SU fits give the value at the edge of their accepted range for inputs outside it, and the bound mass reported for a subhalo is drawn once and is the one that sets its truncation radius and normalisation, in every order of evaluation.
  The density-transfer factor lies in (0, 1], depends only on the bound fraction and concentration, does not fall when the remnant is heavier, and equals one for a remnant at least as heavy as the unstripped reference halo; the truncation radius reproduces the bound mass as the total mass of the truncated profile.""",
  ["inputs", "schedules"], "all concentrations, elapsed times, host concentrations and draws", TEST_GAP,
  ["pyHalo/Halos/galacticus_truncation/interp_mass_loss.py", "pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py", "pyHalo/Halos/tidal_truncation.py", "pyHalo/Halos/HaloModels/TNFW.py"],
  [("InterpGalacticus*, compute_r_te_and_f_t", "pyHalo/Halos/galacticus_truncation")], ["bound mass fraction, r_te, f_t"])

p("P24", "Profile conversions keep the identity of halos and touch no others",
  """Operations that convert truncated NFW halos (collapsed, self-interacting, cored, isothermal or galaxy profiles) convert exactly the halos their rule selects to the requested profile, keep mass, position, 3D position, redshift, subhalo status, tag, concentration, bound mass and infall redshift of each converted halo, return every other object itself exactly once, do not change the given halos, and keep lens, rendering volume, centre, mass-sheet choice and the memory of having been moved along a light ray.
  Black holes are seeded with the given probability within the scale radius of a halo with the given mass ratio up to the maximum mass, and in unresolved halos of every lens plane, none below the minimum mass; globular clusters are added at the lens redshift around each centre within the radius, with number, mass, slope and size from the given distributions.""",
  ["inputs", "configurations"], "all populations, thresholds and selection lists", TEST_GAP,
  ["pyHalo/realization_extensions.py"], [("RealizationExtensions methods", "pyHalo/realization_extensions.py")], ["halo lists"])

p("P25", "Core collapse follows mass bin, probability and evolution time",
  """A truncated NFW halo is selected for core collapse only if its mass lies in a listed bin for its kind (subhalo or field), with exactly the bin's probability (constant or given by a function of the halo), and nothing else is selected. Under the collapse-time and cross-section rules each halo uses the collapse time or cross section of its own mass bin, masses outside every bin are an error, and its dimensionless age is its effective age over its collapse time, with the time after infall rescaled for subhalos only.
  A halo younger than the threshold stays exactly as it is, an older one is converted with the given probability to the requested profile, and objects that are not NFW halos are left alone.""",
  ["inputs", "schedules"], "all masses, bins, probabilities, random numbers and cross sections", TEST_GAP,
  ["pyHalo/realization_extensions.py", "pyHalo/Halos/HaloModels/NFW_core_trunc.py"], [("core_collapse_by_mass, toSIDM*", "pyHalo/realization_extensions.py")], ["selected indexes, t_over_tc"])

p("P26", "Evolving self-interacting profiles stay physical at every age",
  """The evolved scale and core radii follow the calibrated fits of the dimensionless age (effective age over collapse time) and their extrapolation past collapse. For every age they are positive, finite and proportional to the initial scale radius, start at the collisionless values with a vanishing core, are continuous across the phase boundaries to within a percent, and no longer change beyond the maximum age.
  The effective age counts the time after infall with the requested rescaling, for subhalos only.""",
  ["inputs"], "all dimensionless ages and initial scale radii", TEST_GAP,
  ["pyHalo/Halos/HaloModels/NFW_core_trunc.py"], [("evolve_profile", "pyHalo/Halos/HaloModels/NFW_core_trunc.py")], ["rs, rc, alpha_Rs"])

p("P27", "Batched evaluation gives the same properties as halo-by-halo evaluation",
  """Precomputing properties for many halos at once (concentrations, infall redshifts and times, NFW parameters, tidal mass loss, truncation radii, bound masses, evolving self-interacting profiles) stores for every halo what its one-by-one evaluation produces from the same concentration, infall and mass-loss models and the same random numbers, one draw per halo; only the amplitude of evolving profiles is held to the accuracy of the distance tables.
  Values a halo already has are kept, and halos that are not supported (other profiles, truncated halos with a truncation other than the realization's model) are untouched."""
  ,
  ["inputs", "histories"], "all halo lists, masses, redshifts and prior cache states", TEST_GAP,
  ["pyHalo/Halos/batch_halo_util.py"], [("precompute_*", "pyHalo/Halos/batch_halo_util.py")], ["cached halo attributes"])

p("P28", "Preset models pass every user setting to the component it controls",
  """Each preset model forwards the user's lens configuration, mass limits, amplitudes, slopes, scalings, profile choices and flags to the corresponding component: logarithmic amplitudes override linear ones, switches for the two-halo term, Poisson noise, globular clusters and massive galaxies act exactly when set, and specialised presets equal the base preset with the documented settings.
  A call's result depends only on its own arguments, not on earlier calls, and settings left out take the documented defaults of the signature.""",
  ["configurations", "histories"], "all parameter values and all preceding calls", TEST_GAP,
  ["pyHalo/PresetModels", "pyHalo/preset_models.py"], [("preset functions", "pyHalo/PresetModels/*.py")], ["arguments received by the rendering, halo and extension components"])

p("P29", "Fluctuations, correlated objects and black holes appear where requested",
  """Fluctuations of an ultra-light dark matter halo are Gaussian convergence profiles at the lens, inside the requested ring, ellipse or the aperture of the image they were drawn for; their mean number is the area over the area of one fluctuation, limited to the given number per region with the spread of amplitudes reduced by the square root of the excess, their central convergence follows the requested spread around zero and their sizes the requested mean and spread.
  Objects correlated with the density field hold the requested fraction of the projected mass of the halos inside the aperture around each light ray at each plane, with the requested mass function, at the positions drawn from the convergence map; exactly the halos near a ray lose this fraction, once, and the given realization stays unchanged. Primordial black holes split the requested mass fraction between a smooth population in each image's cone and a clustered one inside each image's own aperture.""",
  ["inputs", "schedules"], "all random draws, apertures and plane populations", TEST_GAP,
  ["pyHalo/realization_extensions.py", "pyHalo/Rendering/correlated_structure.py", "pyHalo/Rendering/MassFunctions/delta_function.py", "pyHalo/Rendering/MassFunctions/gaussian.py"], [("add_ULDM_fluctuations, add_correlated_structure, add_primordial_black_holes, CorrelatedStructure", "pyHalo")], ["positions, amplitudes, counts, rescaled halos"])

p("P30", "Imported subhalo catalogues are filtered and projected faithfully",
  """Importing an external subhalo catalogue keeps exactly the nodes of the requested tree that are subhalos, inside their host's virial radius, inside the requested mass range and inside the projected aperture; projection preserves distances (the squared projected radius plus the squared depth equals the squared 3D radius), and all imported attributes stay attached to their own node.
  Reading an output numbers nodes and trees consistently, and an emulated catalogue becomes one truncated subhalo per entry with the given mass, concentration, infall redshift, truncation radius and position.""",
  ["inputs"], "all catalogues, projection angles and filter settings", TEST_GAP,
  ["pyHalo/Halos/galacticus_util/galacticus_filter.py", "pyHalo/PresetModels/external.py", "pyHalo/Halos/galacticus_util/galacticus_util.py"],
  [("nodedata_filter_*, DMFromGalacticus", "pyHalo")], ["filters, projected positions"])

p("P31", "Model names select the documented models; unknown names fail",
  """Each documented name of a mass function, concentration, truncation, infall or preset model selects the model class with the documented calibration constants merged over the user's keywords, without modifying the caller's keywords, and an unknown name raises an error and never falls back silently.""",
  ["configurations"], "all names (arbitrary strings) and keyword dictionaries", TEST_GAP,
  ["pyHalo/mass_function_models.py", "pyHalo/concentration_models.py", "pyHalo/truncation_models.py", "pyHalo/preset_models.py", "pyHalo/Halos/lens_cosmo.py"],
  [("preset_* lookup functions", "pyHalo/*.py")], ["returned class and keywords"])

p("P32", "Interpolated ray paths follow the light ray through every lens plane",
  """The functions that interpolate a light ray start at the image on the sky at zero distance, give the angle of the multi-plane ray on every lens plane and at the source, and are linear in comoving distance between neighbouring sampled planes; the ray passes once through every lens plane, in order of distance, with the given lens model, whatever order or container the plane redshifts come in.
  If asked to end at the source, each path keeps the ray up to the last plane in front of the source and ends at the given source position; the path of the mean is the mean of the paths of the images.""",
  ["inputs"], "all image and source positions, deflections, lens planes and distances along the path", TEST_GAP,
  ["pyHalo/utilities.py"], [("interpolate_ray_paths", "pyHalo/utilities.py")], ["functions of comoving distance"])

p("P33", "Physical densities and masses of halos describe the exported lens model",
  """The density in solar masses per cubic kpc of an NFW or truncated NFW halo is the profile of its mass, concentration and truncation radius times its rescaling, at every radius and in every order of evaluation, and its enclosed mass belongs to the same profile; the lensing-based densities, deflections, convergences and projected masses of cored, truncated, core-collapsed, double power-law and globular-cluster profiles are those of the exported lens arguments, converted from arcsec and critical surface density at the halo's redshift.
  Logarithmic slopes are the derivatives of these profiles; no query changes the exported arguments.""",
  ["inputs", "histories"], "all masses, profile parameters, radii, rescalings and query orders", TEST_GAP,
  ["pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/HaloModels/NFW.py", "pyHalo/Halos/HaloModels/NFW_core_trunc.py", "pyHalo/Halos/HaloModels/core_collapsed_halo.py", "pyHalo/Halos/halo_base.py"],
  [("density_profile_3d, mass_2d, mass_3d, deflection_angle, log_profile_slope", "pyHalo/Halos/HaloModels/*.py")], ["densities, masses, slopes"])

p("P34", "Convergence maps and correlation statistics describe the realization",
  """The residual convergence map of a realization is the convergence of all its deflectors and the macromodel, each on its own plane in the realization's cosmology, minus the macromodel's, pixel by pixel over the requested window, and the given macromodel is not modified; the annular mask is one strictly between the radii and zero elsewhere.
  The correlation function of a map is the covariance of the map at the requested separation and angle, independent of the map's mean and normalised to one at zero separation, and its multipoles recover the coefficients of its expansion in Chebyshev polynomials.""",
  ["inputs"], "all deflectors, convergence values, grids of the stated sizes, centres and radii", TEST_GAP,
  ["pyHalo/utilities.py", "pyHalo/realization_extensions.py"],
  [("multiplane_convergence, mask_annular", "pyHalo/utilities.py"), ("corr_kappa_with_mask, xi_l", "pyHalo/realization_extensions.py")], ["convergence map, mask, correlation function, multipoles"])
