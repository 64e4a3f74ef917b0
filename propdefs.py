SED, PH, CO, DU = "dsps/sed/", "dsps/photometry/", "dsps/cosmology/flat_wcdm.py", "dsps/dust/"
AGEW = ("age weights", "dsps/sed/stellar_age_weights.py:calc_age_weights_from_sfh_table")
MASS = ("cumulative mass table", "dsps/utils.py:cumulative_mstar_formed")
METW = ("lognormal metallicity weights", "dsps/sed/metallicity_weights.py:calc_lgmet_weights_from_lognormal_mdf")
METT = ("metallicity weights of a history", "dsps/sed/metallicity_weights.py:calc_lgmet_weights_from_lgmet_table")
TWH = ("triweight histogram", "dsps/utils.py:triweighted_histogram")

# ------------------------------------------------------------------ SED
prop("C01", "Stellar age weights are a probability distribution",
     "For every increasing time table, every non-negative star-formation history, every increasing SSP age grid with at least three ages (adjacent spacings within a factor of three) and every "
     "observation time after the Big-Bang floor, the stellar age weights are finite, have one entry per SSP age, are non-negative and sum to one.",
     "all SFR values in [0,1000] Msun/yr (including all zero), all tobs in the box, symbolic or realistic time tables and age grids of several sizes",
     "normalisation must survive every SFH shape, quenched or empty histories and any placement of tobs against the table",
     [AGEW, ("age bin edges", "dsps/sed/stellar_age_weights.py:_get_lg_age_bin_edges"), MASS])
prop("C02", "Age weights equal the mass formed inside each age bin",
     "The weight of each SSP age equals the fraction of the stellar mass formed up to the observation time whose age at that time lies inside that SSP's age bin, where bin edges are the midpoints in log age "
     "and the logarithm of the cumulative mass is interpolated linearly in log time between table entries. Ages older than the earliest time covered by the formation history get no weight "
     "(up to the mass formed before the table starts).",
     "all SFR values in [0,1000], observation times at fixed and symbolic values, several table and age-grid sizes, evenly spaced log-age grids",
     "the mass assigned to a bin is only compared with an independent computation at sampled histories, not for every history",
     [AGEW, ("birth times", "dsps/sed/stellar_age_weights.py:_get_lgt_birth"), ("log mass table", "dsps/sed/stellar_age_weights.py:_calc_logsm_table_from_sfh_table"), MASS])
prop("C03", "Star formation after the observation time never matters",
     "Two star-formation histories that agree at all table entries up to and including the first entry at or after the observation time give identical age weights, and identical stellar mass at the "
     "observation time, whatever they do later.",
     "all pairs of SFR arrays that agree early and differ arbitrarily (in [0,1000]) later; all tobs in the box",
     "causality is a relation between two runs over all possible futures; no test compares two futures",
     [AGEW, ("stellar mass at tobs", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_lognormal_mdf"), MASS])
prop("C04", "Metallicity weights are a probability distribution",
     "For every mean metallicity (including far below or above the SSP grid), every positive scatter and every increasing SSP metallicity grid with at least three entries (adjacent spacings within a factor of three), the lognormal metallicity weights are "
     "finite, non-negative and sum to one; a population far outside the grid puts all its weight on the nearest end of the grid.",
     "all means in [-20,20], scatters in [0.01,3], all increasing grids of 3..6 (thorough: 12) entries in [-5,1] with bounded adjacent spacing ratio",
     "normalisation and the fill-in of empty histograms must hold for every mean/scatter/grid combination",
     [METW, TWH, ("fill empty weights", "dsps/utils.py:_fill_empty_weights_singlepoint")])
prop("C05", "Metallicity weights are localised and ordered by the mean",
     "Inside the grid a population only has weight on SSP metallicities whose bin comes within three scatters of the mean, raising the mean never increases the cumulative weight at or below any grid metallicity, "
     "and a mean at the centre of a symmetric, evenly spaced grid gives symmetric weights.",
     "all means/scatters in the box and all increasing grids of the stated sizes",
     "ordering and support are relations over all pairs of means",
     [METW, TWH, ("bin edges", "dsps/utils.py:_get_bin_edges")])
prop("C06", "Joint SSP weights are a distribution with the right marginals",
     "The joint SSP weights are non-negative, sum to one and have shape (n_met, n_age); their age marginal equals the stellar age weights and, with a single metallicity distribution, their metallicity "
     "marginal equals the metallicity weights; with a metallicity history the joint weight of each age is split over metallicity according to that age's own metallicity weights.",
     "all SFR/metallicity arrays, scatters and observation times in the box for several table/grid sizes",
     "marginals tie four outputs together for every history; tests check sums of single examples",
     [("joint weights, lognormal", "dsps/sed/ssp_weights.py:calc_ssp_weights_sfh_table_lognormal_mdf"),
      ("joint weights, history", "dsps/sed/ssp_weights.py:calc_ssp_weights_sfh_table_met_table"), AGEW, METW, METT])
prop("C07", "Metallicity histories are read at each population's birth time",
     "With a tabulated metallicity history, the metallicity distribution of each SSP age is the single-metallicity distribution at the history's value at that age's birth time (observation time minus age, "
     "floored just after the Big Bang, interpolated linearly in log time and held flat beyond the table), divided evenly among the ages. A constant history therefore reproduces the single-metallicity weights for every age.",
     "all metallicity tables in [-4,-1]^n, scatters and observation times in the box, several grid sizes",
     "the dependence of every column on the right birth time must hold for every history",
     [METT, ("metallicity at birth", "dsps/sed/metallicity_weights.py:_calc_lgmet_at_ssp_lgage_table"), METW])
prop("C08", "A composite SED is the mass-weighted sum of SSP spectra",
     "The rest-frame SED equals the stellar mass formed by the observation time times the weighted sum of SSP spectra, with the joint SSP weights of the same inputs, which are returned unchanged alongside. It is linear in the "
     "SSP spectra, non-negative for non-negative spectra and at each wavelength lies between the mass times the smallest and the largest SSP flux.",
     "all SFR tables, metallicities, SSP fluxes and observation times in the box, two SED functions, several sizes",
     "linearity and the mass-weighted bound quantify over all spectra and histories",
     [("rest SED, lognormal", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_lognormal_mdf"), ("rest SED, history", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_met_table")])
prop("C09", "Cumulative stellar mass is the integral of the star-formation rate",
     "The cumulative mass formed is finite, starts from the tiny mass formed before the table, never decreases for non-negative SFR, is additive in the SFR, equals the exact integral for constant and linear histories over "
     "every interval, and does not change at the original times when a time is inserted on the line between two entries.",
     "all time tables in (0.001, 20] Gyr and SFR tables in the box, several sizes",
     "integration identities must hold for all tables",
     [MASS, ("cumulative trapezoid", "dsps/utils.py:cumtrapz")])
prop("C10", "Star-formation rates below the floor act as the floor",
     "Replacing SFR entries below the minimum star-formation rate by that minimum changes neither the age weights nor the stellar mass behind the SED, entries above it are used as they are, and an all-zero history gives finite age "
     "weights and SED. A custom minimum is honoured by the age weights and by the stellar mass behind the SED.",
     "all SFR tables mixing values below and above the floor, all floors in the box",
     "tests use strictly positive or default-floor histories",
     [("log mass table", "dsps/sed/stellar_age_weights.py:_calc_logsm_table_from_sfh_table"), AGEW, ("rest SED", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_lognormal_mdf")])

# ------------------------------------------------------------------ photometry
RM = ("rest magnitude", PH + "photometry_kernels.py:calc_rest_mag")
OM = ("observed magnitude", PH + "photometry_kernels.py:calc_obs_mag")
prop("C11", "Rest-frame AB magnitudes have the right zero point and scaling",
     "A flat spectrum equal to the AB reference has rest-frame magnitude zero in every filter, scaling a spectrum by c shifts the magnitude by -2.5 log10(c), scaling a filter's transmission changes nothing, and a spectrum that is "
     "nowhere fainter never has a larger magnitude. The magnitude is -2.5 log10 of the ratio of transmission-weighted photon integrals of source and reference.",
     "all positive spectra, all non-negative transmission curves, all scale factors in the box; several spectrum and filter grids",
     "zero point, scaling and monotonicity quantify over all spectra and filters", [RM, ("rest flux", PH + "photometry_kernels.py:calc_rest_flux")])
prop("C12", "Observed magnitudes separate into bandpass shift and cosmological dimming",
     "An observed magnitude equals the magnitude of the spectrum redshifted in wavelength through the filter plus the distance modulus minus 2.5 log10(1+z); the first part is independent of cosmology, equals the rest-frame "
     "magnitude at z=0, and the dimming is the same for every spectrum and filter. The tabulated dimming agrees with the exact one at the table's redshifts.",
     "all spectra, filters, redshifts and cosmologies in the box",
     "decomposition and cosmology-independence are relations over all inputs",
     [OM, ("dimming", PH + "photometry_kernels.py:_cosmological_dimming"), ("tabulated dimming", PH + "photometry_kernels.py:_cosmological_dimming_from_table")])
prop("C13", "Photometry tables equal the single-object kernels entry by entry",
     "Every entry of the precomputed SSP magnitude tables equals the single-spectrum magnitude of that metallicity, age, filter and redshift, with the axes ordered (redshift,) metallicity, age, filter.",
     "all flux cubes, filter sets, redshift tables and cosmologies in the box, all sizes pairwise different",
     "a swapped axis or misplaced argument shows only for non-square tables and distinct entries",
     [("observed table", PH + "photpop.py:precompute_ssp_obsmags_on_z_table"), ("rest table", PH + "photpop.py:precompute_ssp_restmags"),
      ("k-corrected table", PH + "photpop.py:precompute_ssp_restmags_z_kcorrect")])
prop("C14", "Light outside a filter or outside the spectrum does not count",
     "The flux through a filter is zero when filter and spectrum do not overlap, counts nothing beyond the ends of the spectrum, does not depend on spectrum values outside the wavelengths the filter samples, and is additive and linear in "
     "the spectrum, in the rest frame and at every redshift.",
     "all spectra, transmissions and redshifts in the box",
     "coverage handling must hold at every redshift and for every flux", [RM, OM, ("flux integrals", PH + "photometry_kernels.py:_obs_flux_ssp")])
prop("C15", "Resampled filter curves keep range, values and order",
     "Resampling a collection of transmission curves to a common length gives each filter its own evenly spaced wavelengths from its own minimum to its own maximum and the linear interpolation of its own transmission there, so values stay within the curve's range and end points are "
     "kept; the default length is the smallest input length and the input order is preserved.",
     "all wavelength grids and transmissions of several unequal lengths, all requested lengths up to the bound",
     "the test resamples one example", [("resampling", PH + "utils.py:interpolate_filter_trans_curves")])

# ------------------------------------------------------------------ cosmology
prop("C16", "Expansion rate, critical density and matter fraction are consistent",
     "In flat w0-wa cosmologies the squared expansion rate is the sum of the matter term Om0(1+z)^3 and the dark-energy term, equals one today, the critical density scales with its square and with h^2, and the matter fraction lies between 0 and 1, equals Om0 today "
     "and never decreases with redshift when dark energy dilutes more slowly than matter.",
     "all z, Om0, w0, wa, h in the box", "only a few cosmologies are compared with reference numbers",
     [("E(z)", CO + ":_Ez"), ("critical density", CO + ":rho_crit"), ("Om(z)", CO + ":_Om_at_z")])
prop("C17", "Distance measures are mutually consistent",
     "At every redshift the luminosity distance is (1+z) times the comoving distance and (1+z)^2 times the angular-diameter distance, the distance modulus is 5 log10 of the luminosity distance in units of 10 pc, and the differential comoving volume is the Hubble distance "
     "times the squared comoving distance over the expansion rate.",
     "all z, Om0, w0, wa, h in the box", "relations between functions are compared at few points only",
     [("luminosity", CO + ":luminosity_distance_to_z"), ("angular", CO + ":angular_diameter_distance_to_z"), ("modulus", CO + ":distance_modulus_to_z"), ("volume", CO + ":differential_comoving_volume_at_z")])
prop("C18", "Comoving distance integrates the inverse expansion rate",
     "The comoving distance is zero at redshift zero, positive beyond, scales as 1/h, and is the trapezoid integral of c/H(z) over evenly spaced redshifts, so that for a cosmological constant it lies between the rectangle-rule bounds and increases with redshift (shown up to redshift two).",
     "all z up to the stated maximum and all cosmologies in the box", "tests compare with a few tabulated values at fixed tolerance",
     [("comoving distance", CO + ":comoving_distance_to_z")])
prop("C19", "Ages and lookback times add up and stay physical",
     "Lookback time is zero today and scales as 1/h, the age at redshift zero equals the present age, ages and lookback times are integrals of the same 1/((1+z)H(z)) (bracketed by rectangle sums for a cosmological constant), and with a cosmological constant the age is positive at every redshift and never increases with redshift.",
     "all z and cosmologies in the box", "the tests stop at modest redshift and fixed cosmologies",
     [("age", CO + ":age_at_z"), ("present age", CO + ":age_at_z0"), ("lookback", CO + ":lookback_to_z")])
prop("C20", "Virial dynamical time follows the Bryan-Norman overdensity",
     "The virial dynamical time is positive and finite, equals 2^1.5 times the Hubble time at that redshift over the square root of the virial overdensity 18 pi^2 + 82x - 39x^2 with x the matter fraction minus one, and scales as 1/h.",
     "all z and cosmologies in the box", "only one redshift array is checked for finiteness",
     [("dynamical time", CO + ":virial_dynamical_time"), ("overdensity", CO + ":_delta_vir"), ("Hubble time", CO + ":_hubble_time")])
prop("C21", "Array versions of the cosmology functions equal the scalar ones",
     "Each array-valued cosmology function returns, element by element and in order, the scalar function's value at that redshift for the same cosmology.",
     "all redshift arrays and cosmologies in the box", "tests use single arrays and compare some functions only",
     [("vectorised forms", CO + ":comoving_distance"), ("age", CO + ":age_at_z")])

# ------------------------------------------------------------------ dust
prop("C22", "Dust transmits a fraction of the light between the floor and one",
     "For every reddening curve value, non-negative Av and floor in [0,1], the transmitted fraction is finite, lies between the floor and one, equals one without dust, never increases with Av or with the reddening value, and equals floor + (1-floor) 10^(-0.4 A).",
     "all k, Av >= 0, floors in [0,1]", "tests evaluate one floor and one Av", [("transmission", DU + "att_curves.py:_frac_transmission_from_k_lambda")])
prop("C23", "Attenuation curves are non-negative and proportional to Av",
     "Every attenuation curve is its reddening curve times Av/4.05 clipped at zero: non-negative for every wavelength, zero at Av=0, proportional to Av, with the bump and slope parameters passed through in their own roles.",
     "all wavelengths, Av, bump amplitudes, slopes, bump positions and widths in the box", "curves are compared with tabulated files at fixed parameters",
     [("noll", DU + "att_curves.py:noll09_k_att_curve"), ("salim", DU + "att_curves.py:sbl18_k_att_curve"), ("calzetti", DU + "att_curves.py:calzetti00_att_curve"), ("leitherer", DU + "att_curves.py:leitherer02_att_curve")])
prop("C24", "Modified reddening curves reduce to their base curves",
     "Both modified reddening curves equal the Leitherer curve below 0.15 micron and the Calzetti curve above when bump amplitude and slope are zero; the first multiplies base plus bump by the V-band-normalised power law, the second adds the bump after the power law, both are clipped at zero, and the bump "
     "peaks at its centre with its amplitude. The smooth approximation is the power law whose slope follows the triweight transition, and the bump amplitude is tied to the slope by 0.85 - 1.9 delta.",
     "all wavelengths, amplitudes, slopes, positions, widths in the box", "reductions are checked at fixed parameter values",
     [("noll k", DU + "att_curves.py:noll09_k_lambda"), ("salim k", DU + "att_curves.py:sbl18_k_lambda"), ("bump", DU + "att_curves.py:_drude_bump"), ("power law", DU + "att_curves.py:power_law_vband_norm")])
prop("C25", "Blackbody spectra obey Planck's law in both conventions",
     "The frequency and wavelength densities are positive, increase with temperature at fixed frequency or wavelength, equal Planck's law in solar units, and agree with each other through the Jacobian c/lambda^2; the peak frequency and peak wavelength obey Wien's displacement laws.",
     "all temperatures and frequencies with h nu/kT in the box", "compared with a reference implementation at a few temperatures",
     [("frequency density", DU + "blackbody.py:blackbody_freq_density"), ("wavelength density", DU + "blackbody.py:blackbody_wave_density")])
prop("C26", "Effective wavelength is a transmission-weighted mean",
     "The effective wavelength of a filter at redshift zero lies between its shortest and longest wavelength, is unchanged when the transmission is rescaled, scales with the wavelength unit, and at redshift z is the value at zero divided by 1+z.",
     "all non-negative transmission curves with positive area and all z in the box", "one filter is tested", [("effective wavelength", DU + "utils.py:get_filter_effective_wavelength")])
prop("C27", "Equivalent widths measure line flux against a quadratic continuum",
     "For a spectrum whose continuum is any quadratic, the line flux is zero without a line, equals the integral of what is added inside the line window, is linear in the spectrum, ignores flux outside the continuum and line windows, and the equivalent width is the line flux over the continuum at line centre and does not change "
     "when the spectrum is rescaled.",
     "all fluxes at a fixed set of wavelengths and windows", "tests check one synthetic spectrum",
     [("equivalent width", "dsps/em_lines/equivalent_width.py:_ew_kernel"), ("continuum fit", "dsps/em_lines/equivalent_width.py:_weighted_quadratic_fit"), ("decomposition", "dsps/em_lines/equivalent_width.py:_continuum_line_decomp_kern")])

# ------------------------------------------------------------------ kernels
prop("C28", "The triweight kernel is a proper distribution",
     "The triweight cumulative function is zero three widths below its centre and one three widths above, never decreases, is symmetric about its centre, its derivative is the triweight density, which is non-negative, and histogram entries are differences of the cumulative function that telescope over bins.",
     "all positions, centres and positive widths in the box", "sampled on a few grids", [("cumulative", "dsps/utils.py:_tw_cuml_kern"), ("density", "dsps/utils.py:triweight_gaussian"), TWH])
prop("C29", "Bounded sigmoids and their inverse round-trip",
     "The sigmoid lies between its two limits, is monotone in the direction of its limits, passes through the midpoint at its centre, is point-symmetric about it, and the inverse recovers the argument (and vice versa) wherever the value is strictly inside the limits.",
     "all centres, slopes, limits and arguments in the box", "sampled", [("sigmoid", "dsps/utils.py:_sigmoid"), ("inverse", "dsps/utils.py:_inverse_sigmoid")])
prop("C30", "Bin edges enclose their bin centres",
     "As long as adjacent spacings differ by less than a factor of three, interior bin edges lie strictly between neighbouring centres and edges increase; edges are the midpoints for evenly spaced centres, outer edges are the ones requested, and bin widths assigned to a time table are positive, with the width of each interior point the distance between the neighbouring midpoints. The default time table is evenly spaced from just after the Big Bang to the given age, with matching logarithms and widths.",
     "all increasing grids of several sizes", "one grid is tested", [("bin edges", "dsps/utils.py:_get_bin_edges"), ("widths", "dsps/utils.py:_jax_get_dt_array")])
prop("C31", "Power-law densities and samples agree",
     "Power-law samples lie between the bounds for every random number, follow the inverse of the cumulative distribution of the density, and the density is non-negative and integrates to one.",
     "all bounds, indices and uniform random numbers in the box", "a finite random sample is tested", [("density", "dsps/utils.py:powerlaw_pdf"), ("samples", "dsps/utils.py:powerlaw_rvs")])
prop("C32", "Trapezoid integrals are linear, additive and exact for straight lines",
     "The cumulative trapezoid starts at zero, ends at the plain trapezoid integral, is linear in the integrand, monotone for non-negative integrands and increasing abscissae, exact for straight lines, and additive over adjoining intervals.",
     "all abscissae and ordinates in the box, several sizes", "compared with a library at sampled arrays", [("cumulative", "dsps/utils.py:cumtrapz"), ("plain", "dsps/utils.py:trapz")])
prop("C33", "Weight matrices are outer products",
     "The two- and three-dimensional weight matrices are, for each galaxy, the outer products of that galaxy's weight vectors in order, so they sum to one when each vector does and have the vectors as marginals.",
     "all weight vectors in the box, all sizes different", "one shape is tested", [("2d", "dsps/utils.py:_get_weight_matrices_2d"), ("3d", "dsps/utils.py:_get_weight_matrices_3d")])

# ------------------------------------------------------------------ metallicity, imf, bursts
prop("C34", "Mass-metallicity parameters stay inside their bounds and round-trip",
     "Every unbounded parameter set maps to parameters inside their documented bounds with the high-mass slope between its lower bound and the low-mass slope, and converting allowed parameters to unbounded ones and back recovers them; random present-day parameters are drawn inside their own bounds.",
     "all unbounded parameters in the box and all bounded parameters strictly inside the bounds", "only random samples",
     [("bounded", "dsps/metallicity/umzr.py:get_bounded_mzr_params"), ("unbounded", "dsps/metallicity/umzr.py:get_unbounded_mzr_params")])
prop("C35", "Metallicity evolution never raises metallicity into the past",
     "The mass-metallicity relation at any time is at or below its present-day value for the same mass and stays within a thousandth of a dex of it from the reference time on, the present-day relation passes through its pivot and lies between the two straight lines through the pivot whose slopes are its low-mass and high-mass slopes, and both parametrisations of the relation agree when given the same pivots.",
     "all masses, times and parameters in the box", "sampled at default parameters",
     [("relation", "dsps/metallicity/umzr.py:mzr_model"), ("evolution", "dsps/metallicity/umzr.py:mzr_evolution_model"), ("original relation", "dsps/metallicity/mzr.py:mzr_model")])
prop("C36", "Surviving and remnant mass fractions are physical",
     "For each supplied initial mass function the surviving fraction lies between 0 and 1 at every stellar age, is close to one for newborn populations and declines with age after a few million years; the remnant fraction is positive, below one and grows with age up to the Hubble time; each follows the fitting form with the published calibration of that initial mass function, and the default is Chabrier.",
     "all ages in the box, all four initial mass functions", "compared with tabulated files at fixed ages",
     [("surviving", "dsps/imf/surviving_mstar.py:surviving_mstar"), ("remnant", "dsps/imf/remnant_mass.py:remnant_mass")])
prop("C37", "Burst parameters stay inside their bounds and round-trip",
     "Every unbounded burst parameter set maps to a burst fraction, peak age and maximum age inside their documented bounds with the maximum at least one dex beyond the peak, and bounded parameters are recovered after a round trip.",
     "all unbounded parameters in the box and bounded parameters strictly inside", "random samples", [("bounded", "dsps/sfh/diffburst.py:_get_params_from_u_params"), ("unbounded", "dsps/sfh/diffburst.py:_get_u_params_from_params")])
prop("C38", "Bursty age weights mix burst and smooth weights",
     "Bursty age weights are the burst fraction times the burst weights plus the rest times the smooth weights, stay non-negative and normalised, the burst (which normalises as long as some grid age lies inside it) has no weight beyond its maximum age nor below its mirror image about the peak, "
     "and all entry points (bounded or unbounded parameters, log-year or log-Gyr ages) agree.",
     "all burst parameters, smooth weights and age grids in the box", "random samples, default ages", [("mixture", "dsps/sfh/diffburst.py:calc_bursty_age_weights"), ("burst", "dsps/sfh/diffburst.py:_pureburst_age_weights_from_params")])

# ------------------------------------------------------------------ loaders
prop("C39", "Loaded transmission curves are physical",
     "Loading a transmission curve returns the stored wavelengths unchanged and the stored transmissions clipped to [0,1]; it refuses files with a value more than one percent below zero or above one, a missing directory setting, a missing file, and a name pattern that matches no file or several.",
     "all stored transmissions (symbolic values), all combinations of arguments and file-system answers", "the tests read well-formed files only",
     [("loader", "dsps/data_loaders/load_filter_data.py:load_transmission_curve")], over=("inputs", "configurations"))
prop("C40", "Emission-line subsets keep each line's own data",
     "Selecting a subset of emission lines returns exactly the requested lines in the requested order, each with its own wavelength and its own luminosities for every metallicity and age, and leaves everything else untouched.",
     "all luminosity cubes and wavelengths (symbolic), all ordered subsets up to the bound", "one subset is tested", [("subset", "dsps/data_loaders/load_emline_info.py:get_subset_emline_data")])
prop("C41", "SSP libraries survive being written and loaded",
     "Loading an SSP file returns each stored table in its own field, emission-line luminosities converted to erg/s, line names in stored order, and no emission-line fields when none are stored; a library written by the export script loads back unchanged (luminosities in erg/s), with or without emission lines. The requested file is the one given, else the named one in the given directory, else in the environment variable's directory; a missing file or setting is refused.",
     "all table contents (symbolic), with and without lines, all argument combinations", "a single file layout is read", [("loader", "dsps/data_loaders/load_ssp_data.py:load_ssp_templates"), ("export script", "scripts/write_fsps_data_to_disk.py:<module>")], over=("inputs", "configurations"))
prop("C42", "SSP retrieval keeps metallicities, ages and spectra aligned",
     "Retrieving templates from the population-synthesis code requests every metallicity once in order with the caller's options and stacks spectra and line luminosities so that entry i belongs to metallicity i, with metallicities in log10 and ages in log10 Gyr, and lines present only if the code provides them.",
     "all spectra/luminosities (symbolic) of a stand-in synthesis code, several sizes, with and without lines", "the synthesis code is not installed where tests run", [("retrieval", "dsps/data_loaders/retrieve_fsps_data.py:retrieve_ssp_data_from_fsps")], over=("inputs", "configurations"))
prop("C43", "Emission-line names are matched to the right wavelength",
     "Each emission-line wavelength gets the name of the catalogue line that agrees with it to one part in a million and no name when none or several agree, names are turned into valid identifiers consistently wherever they are parsed, and wavelengths keep their order and values.",
     "all wavelengths (symbolic) against the shipped catalogue and small symbolic catalogues", "the matching is only run on the shipped catalogue", [("matching", "dsps/data_loaders/retrieve_fsps_data.py:_get_matched_emline_name"), ("parsing", "dsps/data_loaders/load_emline_info.py:read_emlines_info_fsps")])
prop("C44", "Automatic derivatives are finite and true",
     "Derivatives obtained by automatic differentiation equal the analytic ones: of the triweight kernel and histogram, the bounded sigmoid and its inverse and the dust transmission with respect to each of their arguments (away from kinks), of the cumulative mass with respect to the SFR, "
     "of rest magnitudes and composite SEDs with respect to the spectra. Derivatives of age weights with respect to the SFR and of metallicity weights with respect to mean and scatter are finite everywhere in the box (also for empty histories and means far outside the grid) and sum to zero.",
     "all inputs in the box", "the test suite does not differentiate the code; users run gradient-based inference with it",
     [("triweight", "dsps/utils.py:_tw_cuml_kern"), ("sigmoid", "dsps/utils.py:_sigmoid"), ("inverse sigmoid", "dsps/utils.py:_inverse_sigmoid"), ("dust", DU + "att_curves.py:_frac_transmission_from_k_lambda"), MASS, AGEW, METW, RM])
prop("C45", "Composite photometry is the mass-weighted sum of SSP photometry",
     "The flux of a composite population through a filter (10^(-0.4 m), rest-frame, k-corrected or observed) equals its stellar mass times the sum over metallicities and ages of its joint weights times the fluxes in the precomputed SSP magnitude table of that filter, "
     "so that magnitudes computed from the composite SED and from the tables agree.",
     "all SFR, metallicity, scatter, SSP spectra, transmissions and cosmologies in the box, lognormal and tabulated metallicities", "the two routes users choose between for speed are never compared by the tests",
     [("SED", SED + "stellar_sed.py:calc_rest_sed_sfh_table_lognormal_mdf"), ("SED of a metallicity history", SED + "stellar_sed.py:calc_rest_sed_sfh_table_met_table"), ("tables", PH + "photpop.py:precompute_ssp_obsmags_on_z_table"), RM, OM])
prop("C46", "Random transmission curves are unit-peak Gaussians inside the range",
     "A random transmission curve covers the requested wavelength range evenly, is the normal density of the requested width at those wavelengths divided by its largest value (so it lies between zero and one and reaches one), centred at least two widths from both ends when the centre is drawn, "
     "or exactly where the caller asked; a centre outside the range is refused.",
     "all random numbers, all centres, all positive density values", "the tests draw a few curves", [("random curve", "dsps/data_loaders/load_filter_data.py:load_random_transmission_curve")])
prop("C47", "Photometry does not depend on how spectrum and filter are tabulated",
     "Inserting a wavelength into a spectrum on the straight line between its neighbours, padding a filter that vanishes at its ends with zeros, or continuing a spectrum beyond the wavelengths the filter sees with any values changes no rest-frame, k-corrected or redshifted flux.",
     "all spectra, transmissions, insertion points and padding steps in the box", "the tests use one tabulation each", [RM, ("k-corrected table", PH + "photpop.py:precompute_ssp_restmags_z_kcorrect")])
