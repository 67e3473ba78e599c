"""Writes properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
W = "src/ripplegw/waveforms/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTE = "The stable tests are notebook cells that run each model at one or a few hand-picked systems and compare printed text; "

prop("C01", "PhenomD polarisations equal the LALSuite IMRPhenomD reference",
 "In double precision, for every physical aligned-spin binary and every positive frequency below the model cutoff Mf = 0.2, the plus and cross polarisations of the PhenomD generator agree with LALSuite's IMRPhenomD to rounding in amplitude and in absolute phase (including inclination, coalescence phase and reference frequency).",
 ["inputs", "configurations"],
 "All (chirp mass, eta in (0,0.25], aligned spins in [-1,1], distance, tc, phic, inclination, reference frequency, frequency): inspiral, intermediate and merger-ringdown regimes and both peak-frequency branches.",
 NOTE + "PhenomD is run at m=(20,19), chi=(0.5,-0.5) in single precision, so most regions of the fits (unequal masses, extreme spins, ringdown table) are never compared with anything.",
 [W+"IMRPhenomD.py", W+"IMRPhenomD_utils.py", W+"IMRPhenomD_QNMdata.py", "src/ripplegw/constants.py"],
 [("regime phases glued with C1 matching", W+"IMRPhenomD.py Phase"), ("regime amplitudes with collocation polynomial", W+"IMRPhenomD.py Amp"),
  ("fit coefficients and ringdown table", W+"IMRPhenomD_utils.py get_coeffs, get_fRD_fdamp; IMRPhenomD_QNMdata.py")])
prop("C02", "PhenomXAS polarisations equal the LALSuite IMRPhenomXAS reference",
 "In double precision, for every physical aligned-spin binary and every positive frequency below the model cutoff Mf = 0.3, the plus and cross polarisations of the PhenomXAS generator agree with LALSuite's IMRPhenomXAS to rounding in amplitude and in absolute phase (including inclination, coalescence phase and reference frequency).",
 ["inputs", "configurations"],
 "All (chirp mass, eta, aligned spins, distance, tc, phic, inclination, reference frequency, frequency) of the model's domain.",
 NOTE + "no stable test runs PhenomXAS at all.",
 [W+"IMRPhenomXAS.py", W+"IMRPhenomX_utils.py", "src/ripplegw/constants.py"],
 [("inspiral / intermediate / ringdown phase ansatz and matching", W+"IMRPhenomXAS.py Phase"), ("amplitude ansatz and matching", W+"IMRPhenomXAS.py Amp"),
  ("fits of collocation values", W+"IMRPhenomX_utils.py nospin_CV, Eqspin_CV, Uneqspin_CV, Amp_*_CV"), ("peak time and phase alignment", W+"IMRPhenomX_utils.py calc_phaseatpeak")])
prop("C03", "PhenomPv2 polarisations equal the LALSuite IMRPhenomPv2 reference",
 "In double precision, for every binary with arbitrarily oriented spins, inclination, reference phase and reference frequency, the plus and cross polarisations of the PhenomPv2 generator agree with LALSuite's IMRPhenomPv2 to rounding, up to one common time shift of a small fraction of the total mass (LALSuite aligns the peak with a finite difference). They are finite for every geometry, including aligned spins, face-on systems and a line of sight along the total angular momentum.",
 ["inputs", "configurations"],
 "All (component masses, two spin vectors with norm up to 1, distance, tc, phiRef, inclination, reference frequency, frequency below Mf = 0.2).",
 NOTE + "no stable test runs PhenomPv2.",
 [W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD.py", W+"IMRPhenomD_utils.py"],
 [("source frame to J frame conversion", W+"IMRPhenomPv2_utils.py convert_spins"), ("NNLO Euler angles", W+"IMRPhenomPv2_utils.py ComputeNNLOanglecoeffs"),
  ("twisting up", W+"IMRPhenomPv2.py PhenomPCoreTwistUp"), ("in-plane final spin", W+"IMRPhenomPv2_utils.py FinalSpin_inplane")])
prop("C04", "TaylorF2 polarisations equal the LALSuite TaylorF2 reference",
 "In double precision, for every binary with aligned spins and arbitrary tidal deformabilities, the plus and cross polarisations of the TaylorF2 generator agree with LALSuite's TaylorF2 (with quadrupole moments from its universal relation) to rounding in amplitude and absolute phase at every positive frequency. A reference frequency of zero means that no reference phase is subtracted.",
 ["inputs", "configurations"],
 "All (chirp mass, eta, aligned spins, individual deformabilities including 0, below and above 1, distance, tc, phic, inclination, reference frequency including 0, frequency).",
 NOTE + "TaylorF2 is run at m=(3,2), chi=(0.5,0.4), lambda=500 only.",
 [W+"TaylorF2.py", W+"IMRPhenom_tidal_utils.py"],
 [("PN phasing coefficients", W+"TaylorF2.py get_PNPhasing_F2"), ("phase and amplitude assembly", W+"TaylorF2.py _gen_TaylorF2"), ("quadrupole universal relation", W+"IMRPhenom_tidal_utils.py get_quadparam_octparam")])
prop("C05", "NRTidalv2 waveform is PhenomD plus the LALSuite tidal corrections",
 "In double precision, for every binary with aligned spins and arbitrary deformabilities, the tidal PhenomD strain equals the LALSuite IMRPhenomD strain combined with LALSuite's NRTidalv2 tidal phase, tidal amplitude and Planck taper and the published spin-induced quadrupole and octupole phase terms, to rounding at every frequency below the end of the taper. For non-spinning binaries this is LALSuite's IMRPhenomD_NRTidalv2 itself.",
 ["inputs", "configurations"],
 "All (chirp mass, eta, aligned spins, deformabilities including 0, below and above 1 and very large, distance, tc, phic, inclination, reference frequency, frequency, taper switch).",
 NOTE + "the model is run at m=(2,1), zero spin, lambda=400 only.",
 [W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenom_tidal_utils.py", W+"IMRPhenomD.py"],
 [("tidal phase Pade", W+"IMRPhenomD_NRTidalv2.py get_tidal_phase"), ("tidal amplitude", W+"IMRPhenomD_NRTidalv2.py get_tidal_amplitude"),
  ("spin-induced terms", W+"IMRPhenomD_NRTidalv2.py get_spin_phase_correction"), ("effective tidal parameter", W+"IMRPhenom_tidal_utils.py get_kappa")])
prop("C06", "Sine-Gaussian burst equals its definition for all parameters",
 "For every quality factor, central frequency, root-sum-square amplitude, phase and eccentricity in [0,1], the burst generator returns Gaussian-windowed sinusoids whose two polarisations have the elliptical amplitudes of the LALSuite sine-Gaussian, so that the total root-sum-square strain equals the requested one; eccentricity 1 gives no cross polarisation and eccentricity 0 a circular one. The value at each time depends on that time only.",
 ["inputs"], "All (Q, f0, hrss, phase, eccentricity, time grid), including the ends of the eccentricity range and phases outside [0, 2 pi).",
 NOTE + "four parameter variations are plotted.",
 [W+"SineGaussian.py"], [("ellipse axes", W+"SineGaussian.py semi_major_minor_from_e"), ("normalisation", W+"SineGaussian.py gen_SineGaussian_hphc")])
prop("C07", "Mass parameters convert exactly and stay finite at equal masses",
 "Converting component masses to chirp mass and symmetric mass ratio and back returns the heavier and the lighter mass, in this order, to the accuracy the representation allows; the symmetric mass ratio never exceeds 1/4 and no conversion gives nan, however close the masses are. Effective spin is the mass-weighted mean of the spins, and the ISCO frequency falls as the inverse of the mass.",
 ["inputs"], "All pairs of positive masses, including equal ones, ones that differ in the last bits and extreme ratios, in single and double precision, eager and compiled.",
 NOTE + "a handful of unequal masses pass through the conversion; nearly equal masses, where rounding matters, never do.",
 ["src/ripplegw/__init__.py", "src/ripplegw/constants.py"],
 [("closed-form conversion", "src/ripplegw/__init__.py Mc_eta_to_ms, ms_to_Mc_eta"), ("derived scalars", "src/ripplegw/__init__.py get_chi_eff, get_f_isco")])
prop("C08", "Tidal parameter conversions are exact inverses and agree with each other",
 "The map from the two deformabilities to the effective tidal parameters is the published linear map, its inverse undoes it, and the versions taking component masses and mass ratio agree (with the mass ratio given either way up). The first deformability always belongs to the heavier body, equal masses and deformabilities give a zero asymmetric parameter, and no value is nan for nearly equal masses.",
 ["inputs"], "All (lambda1, lambda2, m1, m2) and (lambda tilde, delta lambda tilde, mass ratio), including zero deformabilities, equal and nearly equal masses and high mass ratios.",
 NOTE + "the conversions are exercised at one or two mass ratios, and the mass-ratio versions not at all.",
 ["src/ripplegw/__init__.py"],
 [("linear map and determinant inverse", "src/ripplegw/__init__.py lambdas_to_lambda_tildes, lambda_tildes_to_lambdas and their _from_q versions")])
prop("C09", "Distance, coalescence time and phase act as exact external factors",
 "For every model and every source, the strain is inversely proportional to luminosity distance, a coalescence time tc multiplies both polarisations by exp(-2 pi i f tc), and for spins along the orbital angular momentum a coalescence phase phic multiplies them by exp(2 i phic). No other parameter's effect depends on them, and these conventions are the same for all frequency-domain models.",
 ["inputs", "configurations"], "All models x all intrinsic parameters x all distances, times (of both signs) and phases (beyond 2 pi) x frequencies.",
 NOTE + "tc and phic are zero in the stable tests.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py"],
 [("external phase contribution", "ext_phase_contrib in the generators; phase_corr_tc in IMRPhenomPv2.py"), ("distance prefactor", "Amp, get_amp0_lal, amp0")])
prop("C10", "Inclination enters aligned-spin polarisations by the quadrupole pattern",
 "For every non-precessing source (in the precessing model: with the total angular momentum along the orbital one), the plus polarisation is (1 + cos^2 i)/2 times and the cross polarisation -i cos(i) times one common inclination-independent strain, which is what the single-strain generator of the model returns. Edge-on systems have no cross polarisation and face-off systems the opposite one of face-on systems.",
 ["inputs", "configurations"], "All aligned-spin models (and the precessing model with aligned spins) x all sources x all inclinations including 0, pi/2 and pi.",
 NOTE + "only a couple of inclinations are ever used.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"IMRPhenomPv2.py"],
 [("polarisation wrappers", "gen_*_hphc"), ("spin-weighted harmonics", W+"IMRPhenomPv2_utils.py SpinWeightedY")])
prop("C11", "Waveforms scale with total mass",
 "Multiplying all masses and times by k while dividing all frequencies (including the reference frequency) by k multiplies the strain by k^2 at fixed distance, mass ratio, spins and deformabilities, for every model. Masses therefore enter only through dimensionless frequencies and one overall factor.",
 ["inputs", "configurations"], "All models x all dimensionless configurations x all scale factors from subsolar to supermassive total mass x frequencies below the cutoff.",
 NOTE + "each model is run at one total mass.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py"],
 [("geometric units", "gt, MRSUN in constants.py; M_s in each generator")])
prop("C12", "Strain is continuous and smooth in frequency across all internal regimes",
 "For every source, amplitude and phase of each model are continuous functions of frequency between zero and the cutoff frequency, and so are their first derivatives: the boundaries between inspiral, intermediate and merger-ringdown descriptions and the start and end of the tidal taper leave no jump and no isolated wrong sample. This includes samples falling exactly on a boundary. For the precessing model this holds while the total angular momentum keeps a component along the orbital one.",
 ["inputs", "configurations"], "All models x all sources x all frequencies in (0, cutoff), with boundaries at source-dependent places.",
 NOTE + "a sample grid of one source cannot show a jump at another source's boundary.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenomD_utils.py"],
 [("C1 matching of phases", "Phase in IMRPhenomD.py and IMRPhenomXAS.py"), ("collocation polynomials through boundary values and slopes", "get_IIa_Amp, get_intermediate_Amp"), ("half weights at the boundaries", "jnp.heaviside(., 0.5)")])
prop("C13", "Strain is finite and non-zero in band and exactly zero above the cutoff",
 "For every physical source and every positive frequency the strain is finite; it is non-zero below the model's end frequency and exactly zero above it (Mf = 0.2 for the PhenomD family, Mf = 0.3 for PhenomXAS, 1.2 times the merger frequency for the tapered tidal model, none for TaylorF2). Exceptions are the last half per cent of the taper, which may round to zero, and isolated zeros of the untapered tidal amplitude above merger. Where the band ends does not depend on the frequencies asked for.",
 ["inputs", "configurations"], "All models x all sources (equal and nearly equal masses, extremal spins, zero deformability, face-on and edge-on) x all frequencies on either side of the end, however the grid is laid out.",
 NOTE + "no tested grid reaches any cutoff.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py"],
 [("cutoff", "fM_CUT in IMRPhenomD_QNMdata.py and IMRPhenomX_utils.py; Amp"), ("clamped roots", "jnp.maximum(1 - 4 eta, 0)"), ("taper", W+"IMRPhenomD_NRTidalv2.py get_planck_taper")])
prop("C14", "Each sample depends only on its own frequency",
 "The value a generator returns for a frequency is the same whatever other frequencies are in the array, in whichever order, however many and however spaced, down to a single one. The output has the shape of the frequency array and complex values.",
 ["inputs", "configurations", "histories"], "All frequency arrays (subsets, permutations, repetitions, uniform or not, entirely below, straddling or above the cutoff) x models x sources.",
 NOTE + "one uniform grid per model is used.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"SineGaussian.py"],
 [("pointwise formulas", "generators"), ("pointwise cutoff", "fcut_true")])
prop("C15", "Compilation, vectorisation and input containers do not change results",
 "Calling a public function eagerly, compiled, vectorised over parameters, over frequencies or over reference frequencies, or nested in any combination, gives the same values to rounding. So does passing the same numbers as lists, tuples, NumPy or JAX arrays, with integer or floating type where the values are integers.",
 ["programs", "inputs", "configurations"], "All public generators and conversions x all compositions of jit and vmap up to depth three x argument containers x sources on both sides of every branch.",
 NOTE + "they use one transformation of one model.",
 ["src/ripplegw/__init__.py", "src/ripplegw/noise.py", W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"SineGaussian.py"],
 [("traceable branches", "jax.lax.cond, jnp.where in the models")])
prop("C16", "Derivatives are finite and equal the slope of the waveform",
 "Forward- and reverse-mode derivatives of amplitude and phase with respect to every physical parameter are finite and equal to the slope of the computed waveform, for every source inside the parameter domain and every frequency below the cutoff. (The ringdown frequency of the PhenomD family is interpolated linearly in a fine table of final spins, whose local slope is meant.) This includes derivatives taken on either side of internal branch points such as unit tidal deformability and the regime boundaries.",
 ["inputs", "programs"], "All models x all sources with unequal masses (and, for the precessing model, misaligned spins) x all parameters x frequencies away from the boundaries themselves.",
 NOTE + "one gradient of PhenomD at one source is printed.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"SineGaussian.py"],
 [("differentiable formulas", "generators"), ("custom derivative of the taper", W+"IMRPhenomD_NRTidalv2.py get_planck_taper.defjvps")])
prop("C17", "Single precision agrees with double precision within its accuracy",
 "Without 64-bit mode, every model returns finite 32-bit strains that agree with the 64-bit ones within the accuracy single precision allows for the size of the phase (plus a few hundredths of a radian from cancellations between fit coefficients), for stellar-mass and heavier sources in a detector band. No intermediate quantity overflows or underflows.",
 ["inputs", "configurations"], "All models x sources x frequencies of a ground-based detector band x distances from Mpc to tens of Gpc, in the default 32-bit configuration.",
 NOTE + "32-bit results are never compared with 64-bit ones.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", "src/ripplegw/constants.py"],
 [("unit choices that avoid extreme magnitudes", "constants.py; amplitude prefactors")])
prop("C18", "Calls are pure: no call changes its arguments or any later result",
 "The result of a call depends only on its arguments: any earlier sequence of calls, with any models, shapes, parameters, transformations or failed calls, leaves every later result bit-identical to that of a fresh process. No call modifies its arguments or any data of the library.",
 ["histories"], "All sequences of public operations (generators, conversions, noise curves, samplers, match utilities, the front end, erroneous calls), with arguments that nearly collide.",
 NOTE + "each runs in its own process and repeats no call after another.",
 ["src/ripplegw/__init__.py", "src/ripplegw/noise.py", "src/ripplegw/FD_waveform.py", W+"IMRPhenomD_utils.py", W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"TaylorF2.py", W+"IMRPhenomD_NRTidalv2.py"],
 [("no module state is written after import", "all modules"), ("coefficient tables are only read", "PhenomD_coeff_table, PhenomX_*_coeff_table, QNMData_*, noise interpolants")],
 state=[{"name": "coefficient tables", "meaning": "fit coefficients read by every call", "where": W+"IMRPhenomD_QNMdata.py, IMRPhenomX_utils.py"}])
prop("C19", "Concurrent calls from several threads do not disturb each other",
 "When several threads generate waveforms or convert parameters at the same time, each gets exactly the result it would get alone, under every interleaving of the threads. This holds in particular for threads using the same model with different sources, grids or reference frequencies.",
 ["schedules"], "All interleavings of two threads at the granularity of source lines, up to a preemption bound, for pairs of calls that share code and tables.",
 NOTE + "they are single-threaded.",
 ["src/ripplegw/__init__.py", "src/ripplegw/FD_waveform.py", W+"IMRPhenomD.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"IMRPhenomXAS.py"],
 [("functions share no mutable state", "all modules")])
prop("C20", "Models reduce to each other in their common limits",
 "With zero deformabilities, zero spins and no taper the tidal model is PhenomD; with aligned spins (and the total angular momentum along the orbital one) the precessing model is PhenomD up to one time and phase shift; giving effective or individual tidal parameters, or chirp mass and mass ratio or component masses, of the same source gives the same strain. Towards low frequency all models have the same quadrupole-formula amplitude and chirp at the same rate.",
 ["inputs", "configurations"], "All sources of each limit x frequencies x ways of passing the parameters.",
 NOTE + "models are only looked at one by one.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", "src/ripplegw/__init__.py"],
 [("shared baseline", "Phase and Amp of IMRPhenomD.py"), ("parameter wrappers", "gen_IMRPhenomPv2_hphc; use_lambda_tildes")])
prop("C21", "Precessing waveform respects rotations and reflections of the source",
 "Rotating both in-plane spins about the orbital angular momentum by an angle while turning the reference phase back by the same angle multiplies both polarisations by one constant phase factor of twice the angle. Viewing from the mirrored inclination with both in-plane spins reversed keeps the plus and reverses the sign of the cross polarisation.",
 ["inputs"], "All component masses, spin vectors, inclinations, reference phases and frequencies x all rotation angles.",
 NOTE + "no stable test runs the precessing model.",
 [W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py"],
 [("J-frame angles computed from invariant combinations", W+"IMRPhenomPv2_utils.py convert_spins"), ("polarisation rotation", W+"IMRPhenomPv2.py gen_IMRPhenomPv2")])
prop("C22", "Match and inner product have the properties of a normalised overlap",
 "The phase-maximised inner product is the modulus of the noise-weighted, normalised correlation at the given time shift, and the match is its maximum over the discrete time shifts of the padded grid: both lie in [0,1], are 1 for identical signals, symmetric, and unchanged by rescaling or a constant phase of either signal, and the match also by a time shift of either signal on the grid. The padding of a uniform grid starting at a multiple of its spacing puts each sample at its own frequency index and gives the documented lengths, with a warning for other grids.",
 ["inputs"], "All signals and noise weights on small grids, all time shifts, all uniform grids given by first index, length and spacing, and all ways of leaving out the second model.",
 NOTE + "a printed match of one pair of waveforms is compared.",
 ["src/ripplegw/__init__.py"],
 [("inner product", "src/ripplegw/__init__.py get_phase_maximized_inner_product_arr, get_phase_maximized_inner_product"), ("FFT maximisation", "src/ripplegw/__init__.py get_match_arr, get_match, get_eff_pads")])
prop("C23", "Noise curves reproduce their tables and are infinite outside their range",
 "In double precision every tabulated noise curve is the square of (or, for power tables, equal to) its table at each tabulated frequency, lies on the straight line between neighbours elsewhere (the tables being those published with the library), and is infinite outside the stated frequency range and where the table is; it is never nan, zero or negative. The analytic LIGO-I curve follows its published formula above 40 Hz and is infinite below.",
 ["inputs"], "All noise curves x all frequencies: every table entry, between every two neighbours, and outside the range.",
 NOTE + "one curve is used on one grid.",
 ["src/ripplegw/noise.py", "src/ripplegw/noise_resources"],
 [("table loading and interpolation", "src/ripplegw/noise.py _load_noise"), ("analytic curve", "src/ripplegw/noise.py Sn_LIGOI")])
prop("C24", "Parameter samplers stay in range, in order, and depend only on the key",
 "Samplers return the requested number of rows, every value inside its range, spread uniformly over it and independently of the other values and rows, and the mass sampler puts the larger value first in every row. The same key gives the same sample and different keys give different ones.",
 ["inputs", "histories"], "All keys, sample counts and ranges (including degenerate and overlapping ones).",
 NOTE + "the samplers are not tested.",
 ["src/ripplegw/__init__.py"], [("samplers", "src/ripplegw/__init__.py get_M_eta_sampler, get_m1_m2_sampler")])
prop("C25", "The uniform front end returns what the named model returns",
 "For each supported model name the front end gives exactly the two polarisations of that model's own generator for the same arguments, and for every other name it raises a ValueError that names it. Instances are independent and keep no trace of earlier calls.",
 ["inputs", "histories"], "All supported names, all near misses and other strings or objects as names, all call sequences on one or several instances.",
 NOTE + "the front end is not tested.",
 ["src/ripplegw/FD_waveform.py"], [("generator table", "src/ripplegw/FD_waveform.py FD_waveform_generator")])
prop("C26", "The reference frequency only fixes the phase origin of aligned-spin models",
 "For every aligned-spin source, changing the reference frequency multiplies the strain by one frequency-independent phase factor, and at the reference frequency itself the strain of a source with zero coalescence time and phase has a phase that is the same for all sources of the model (for the tidal PhenomD model: all non-spinning ones). For precessing sources it also defines when the spins are given, so a change is compensated only for spins, and a total angular momentum, along the orbital one.",
 ["inputs", "configurations"], "All aligned-spin models x sources x reference frequencies from far below the band to the ringdown x frequencies.",
 NOTE + "each uses one reference frequency, the lowest of the band.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomD_NRTidalv2.py", W+"TaylorF2.py", W+"IMRPhenomPv2.py"],
 [("reference phase subtraction", "Psi_ref, phifRef, ref_phasing")])
prop("C27", "Equal-mass binaries do not depend on how their bodies are labelled",
 "For equal masses, exchanging the two bodies' spins (vectors) and deformabilities leaves the strain of every model unchanged, and the effective tidal parameters unchanged up to the sign of the asymmetric one. As the masses approach each other the strain converges to the equal-mass one.",
 ["inputs"], "All models x spin pairs x deformability pairs x frequencies at mass ratio one, and mass ratios approaching one.",
 NOTE + "no stable test has equal masses.",
 [W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenom_tidal_utils.py", W+"TaylorF2.py", "src/ripplegw/__init__.py"],
 [("symmetric spin and mass combinations", "get_coeffs, get_cutoff_fMs, get_kappa, convert_spins")])
prop("C28", "The tidal taper is one below merger, zero at 1.2 times it, and monotonic",
 "The taper of the tidal model multiplies the untapered strain by a real factor that is exactly one up to the merger frequency of the published fit, exactly zero from 1.2 times that frequency on, and falls monotonically and smoothly in between. The merger frequency depends on masses and deformabilities only, and increases when deformabilities decrease.",
 ["inputs"], "All masses, deformabilities, spins and frequencies, including those equal to either end of the taper.",
 NOTE + "the taper's ends are never hit by a tested grid.",
 [W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenom_tidal_utils.py"],
 [("taper", W+"IMRPhenomD_NRTidalv2.py get_planck_taper"), ("merger frequency fit", W+"IMRPhenomD_NRTidalv2.py _get_merger_frequency")])
prop("C29", "Strain responds to every parameter without sudden changes",
 "For every model the strain is a continuous function of masses, spins and deformabilities over the whole domain: no parameter has a threshold (zero spin, extremal spin, unit deformability, a branch of the peak frequency) at which amplitude or phase jumps. Small changes of a parameter therefore have proportionally small effects everywhere. The one exception, part of the published precessing model, is the sign change of the final spin where the spins outweigh the orbital angular momentum.",
 ["inputs", "configurations"], "All models x fine scans of every intrinsic parameter across its whole range x frequencies.",
 NOTE + "isolated sources cannot show a jump between them.",
 [W+"IMRPhenomD.py", W+"IMRPhenomD_utils.py", W+"IMRPhenomXAS.py", W+"IMRPhenomX_utils.py", W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD_NRTidalv2.py", W+"IMRPhenom_tidal_utils.py", W+"TaylorF2.py"],
 [("branches that meet continuously", "f4 branches in get_transition_frequencies, _get_quadparam_octparam_low/_high, clamped Z1 in IMRPhenomX_utils.py")])
prop("C30", "Precession redistributes the radiated power without changing it",
 "At every frequency the power |h+|^2 + |hx|^2 averaged over all viewing directions is, for non-precessing sources of every model, 4/5 of the face-on power. For precessing sources it is that of the non-precessing source with the same aligned spins throughout the inspiral (Mf below 0.014), and beyond it depends on the in-plane spins only through the model's effective precession spin. It never depends on the reference frequency, the directions of the in-plane spins, or time and phase of coalescence.",
 ["inputs", "configurations"],
 "All sources of C03 with the direction of J defined, all viewing directions (inclination and reference phase), all frequencies of the band.",
 NOTE + "the precessing model is never run, and no test integrates over directions.",
 [W+"IMRPhenomPv2.py", W+"IMRPhenomPv2_utils.py", W+"IMRPhenomD.py", W+"IMRPhenomXAS.py", W+"TaylorF2.py", W+"IMRPhenomD_NRTidalv2.py"],
 [("Wigner d coefficients", W+"IMRPhenomPv2_utils.py WignerdCoefficients"), ("sum over spherical harmonics", W+"IMRPhenomPv2.py PhenomPCoreTwistUp"), ("effective precession spin", W+"IMRPhenomPv2_utils.py convert_spins")])
prop("C31", "Conversions, noise curves and overlaps have correct derivatives",
 "Forward- and reverse-mode derivatives of every parameter conversion (away from equal masses), of the noise curves between tabulated frequencies, and of the inner product and match with respect to the parameters of either waveform and to the time shift (where the largest correlation is unique), are finite and equal to the slope of the function. Samples without noise weight (infinite noise) do not disturb them.",
 ["inputs", "configurations"],
 "All arguments of the conversions with unequal masses, all frequencies between table entries, all pairs of waveforms on uniform grids.",
 NOTE + "none takes a derivative of these functions.",
 ["src/ripplegw/__init__.py", "src/ripplegw/noise.py"],
 [("closed-form conversions", "src/ripplegw/__init__.py Mc_eta_to_ms ... get_f_isco"), ("normalisation and modulus of the correlation", "src/ripplegw/__init__.py get_match_arr, get_phase_maximized_inner_product_arr"), ("interpolators", "src/ripplegw/noise.py _load_noise")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
