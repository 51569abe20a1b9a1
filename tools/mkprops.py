"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "where": "primpy/inflation.py"}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Potentials and all their derivatives describe one and the same function",
     "For every built-in inflationary potential and feature potential, with any valid parameters and amplitude and at any field value in its domain, the value returned for the potential is its documented formula, the value returned for its n-th derivative (n=1..4) is the n-th derivative of that same function, and for potentials without a feature the inverse function maps a potential value back to the field value it came from. "
     "A potential specialised to fixed parameters agrees with the general family at those parameters, and a feature potential with zero feature amplitude agrees with the potential it decorates. "
     "Evaluation is element-wise: an array argument gives the same numbers as its elements one by one, and neither the argument nor the potential object is changed by evaluating it. A parameter the potential does not know is refused, not ignored.",
     ["inputs", "configurations"],
     "all potential classes x parameters (powers, widths, alpha, Lambda, feature position/height/width) x field values, scalar or array",
     "The tests compare derivatives with coarse finite differences at a handful of field values for one parameter set per class (and skip most fourth derivatives); a wrong term that is small there, or only matters for fractional powers, negative fields or narrow features, passes.",
     ["primpy/potentials.py"],
     [("V/dV/d2V/d3V/d4V/inv_V of each potential class", "primpy/potentials.py"), ("FeaturePotential product rule and FeatureFunction", "primpy/potentials.py:FeaturePotential")],
     observe="public methods of the potential objects")

prop("C02", "Potential slow-roll parameters follow from V; inflation ends at epsilon=1",
     "For every built-in inflationary potential (without an added feature) the four potential slow-roll parameters equal what their definition gives from the potential itself (the first is half the squared logarithmic slope, each next one is the logarithmic e-fold derivative of the previous one along the slow-roll trajectory), and the quoted end-of-inflation field value is the positive field value where the first of them equals one. "
     "The slow-roll expressions for the four Hubble-flow parameters built from them reproduce the true Hubble-flow parameters of the slow-roll attractor up to terms of the next order in slow roll.",
     ["inputs", "configurations"],
     "all potential classes x parameters x field values between the end of inflation and the plateau/hilltop",
     "The tests check these parameters for positivity or at one parameter point; the third and fourth parameters are long rational expressions for which a wrong coefficient changes no sampled assertion, and end-of-inflation root finding is exercised at one or two parameter points only.",
     ["primpy/potentials.py"],
     [("get_epsilon_1V..4V, get_epsilon_1..4", "primpy/potentials.py"), ("phi_end / phi_end_squared", "primpy/potentials.py")])

prop("C03", "Slow-roll relations between field, e-folds, n_s, r and amplitude are consistent",
     "For every built-in potential (without an added feature, up to 300 e-folds) the slow-roll number of e-folds as a function of the field vanishes at the end of inflation, has the derivative that the slow-roll equations dictate, and is undone by the inverse conversion; where the potential offers conversions between N_star and the spectral index or the tensor-to-scalar ratio, each pair is mutually inverse and agrees to leading order with the slow-roll parameters of that potential; a spectral index that natural inflation of the given width reaches for no N_star is refused. "
     "The amplitude determined from a requested scalar amplitude A_s reproduces exactly that A_s through the leading-order slow-roll formula, whether N_star or the field value is given and whatever amplitude the object had before, also when the request is made on construction. "
     "The deprecated conversion from field to e-folds agrees with its replacement.",
     ["inputs", "configurations"],
     "all potential classes x parameters x field values / N_star / n_s / r / A_s",
     "Tests check single round trips at N=60-like values and one parameter set per potential.",
     ["primpy/potentials.py"],
     [("sr_phi2N / sr_N2phi / phi2efolds", "primpy/potentials.py"), ("sr_Nstar2ns, sr_ns2Nstar, sr_Nstar2r, sr_r2Nstar", "primpy/potentials.py"), ("sr_As2Lambda and A_s constructor option", "primpy/potentials.py:InflationaryPotential")])

prop("C04", "Background derivatives, Hubble-flow and slow-roll parameters are exact and agree",
     "For any state of the background (scale factor, field, velocity, potential, curvature) the Hubble rate obeys the Friedmann equation, and the reported derivatives of the Hubble rate (1st to 3rd) and of the field (2nd to 4th) are the exact consequences of the Friedmann and Klein-Gordon equations, in cosmic time and in e-folds, for flat, open and closed universes. "
     "The Hubble-flow parameters (both conventions), the field slow-roll parameters, the equation of state and the inflation indicator equal their definitions, and the cosmic-time and the e-fold formulation give the same values for the same physical state. "
     "The right-hand side handed to the integrator is that same set of equations, including the optional time and conformal-time variables.",
     ["inputs", "configurations"],
     "all physical states with H^2>0 x potentials x K in {-1,0,1} x both independent variables x tracking options",
     "The tests only compare the formulations along a few integrated (mostly slow-roll, low-curvature) solutions, where curvature terms and higher-derivative terms are negligible.",
     ["primpy/time/inflation.py", "primpy/efolds/inflation.py", "primpy/inflation.py"],
     [("get_H2, get_dH, get_d2H, get_d3H, get_d2phi..get_d4phi", "primpy/time/inflation.py, primpy/efolds/inflation.py"), ("get_epsilon_nH, get_delta_n, w, inflating", "primpy/time/inflation.py, primpy/efolds/inflation.py"), ("__call__ (ODE right-hand side)", "primpy/time/inflation.py, primpy/efolds/inflation.py")])

prop("C05", "Integrated backgrounds satisfy the physics and do not depend on the formulation",
     "For any potential, geometry and valid initial condition, a solved background satisfies the Friedmann constraint and the equations of motion along the whole trajectory (field, velocity, Hubble rate, time and conformal time all mutually consistent), and integrating in cosmic time, in e-folds, forwards, or with another integration method or output grid gives the same trajectory within integration tolerance. "
     "All derived arrays on the solution (Hubble rate, comoving Hubble scale, curvature density, equation of state, named variables and named event tables) describe the same points as the raw integrator output.",
     ["inputs", "configurations", "programs"],
     "potentials x K x initial conditions x formulation x solver method/grid/tracking options",
     "Tests integrate a handful of fixed set-ups and compare end points with loose tolerances.",
     ["primpy/solver.py", "primpy/equations.py", "primpy/inflation.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"],
     [("solve()", "primpy/solver.py"), ("Equations.sol / add_variable", "primpy/equations.py"), ("InflationEquations.sol", "primpy/inflation.py")])

prop("C06", "Events fire where their condition holds; inflation start and end are right",
     "Every tracked event (amount of e-folds or time, start/end of inflation, past the end of inflation, collapse, field value, mode crossing) is recorded exactly at the points of the trajectory where its documented condition is met in the requested direction, none missed and none invented, and a terminal event ends the integration there. "
     "The reported beginning and end of inflation, total e-folds, field, Hubble rate and potential at the end, and the mask of inflating points follow from the trajectory: inflation is where the equation of state is below -1/3; quantities that were not determined are not-a-number and, in verbose mode, the matching warning is issued with a message that describes the actual situation.",
     ["inputs", "configurations", "histories"],
     "trajectories (kinetic, slow-roll, collapsing, re-starting) x sets of tracked events with any direction/terminal flags/values x verbosity",
     "Tests use one fixed list of events in the usual order; combinations such as untracked starts, terminal starts, collapsing universes or several events at once are sampled once or not at all.",
     ["primpy/events.py", "primpy/inflation.py", "primpy/exceptionhandling.py", "primpy/equations.py"],
     [("Event classes", "primpy/events.py"), ("postprocessing_inflation_start / _end", "primpy/inflation.py"), ("InflationStartWarning / InflationEndWarning / CollapseWarning", "primpy/exceptionhandling.py")])

prop("C07", "Initial conditions meet their defining conditions and hit requested targets",
     "Initial conditions built from a field value and either the initial e-folds or the initial curvature density satisfy the Friedmann equation with that curvature, the two ways of specifying them are equivalent, and inflation-start conditions sit exactly on the onset of inflation while slow-roll conditions sit on the slow-roll velocity set by the potential; inflation-start conditions are the same physical state in the cosmic-time and the e-fold equations, slow-roll conditions to leading slow-roll order. "
     "Shooting initial conditions deliver the requested total e-folds, or the requested N_star for the requested present-day curvature, when the background is actually solved from them (with whatever tolerances, initial times and end of integration were asked for along with it), and impossible requests (curvature density of one or more in an open universe, over-curved closed universe, targets beyond the search bracket, missing or contradictory input, equations of another kind) are rejected with the documented error instead of producing numbers.",
     ["inputs", "configurations"],
     "potentials x K x phi_i x N_i or Omega_Ki x t_i/eta_i x formulation x targets",
     "Tests sample a few hard-coded field values and one closed-universe target; equivalence and rejection boundaries are quantified over all inputs.",
     ["primpy/initialconditions.py"],
     [("SlowRollIC, InflationStartIC", "primpy/initialconditions.py"), ("ISIC_Nt, ISIC_NsOk root finding", "primpy/initialconditions.py")])

prop("C08", "Scale-factor calibration places pivot scale, horizon and curvature consistently",
     "After calibrating a solved background, for flat and curved universes, the pivot wavenumber crosses the horizon exactly at the reported crossing e-fold, N_star and N_dagger are the e-folds from crossing to the end and from the beginning to crossing, every reported wavenumber equals the comoving Hubble scale at its point in inverse Mpc, and the comoving Hubble horizon in Mpc is its reciprocal today-normalised counterpart. "
     "The scale factor today, e-folds today and present curvature density satisfy the definition of the curvature density with the given h and the geometry of the background, and calibrated e-folds differ from raw e-folds by one constant for every reported epoch. "
     "Requests that cannot be satisfied (wrong geometry, N_star larger than the available inflation, pivot outside the inflating range, missing inputs, unknown method) raise the documented error.",
     ["inputs", "configurations"],
     "solved backgrounds x calibration method and parameters",
     "Tests check a few attributes for fixed set-ups with loose tolerances.",
     ["primpy/inflation.py", "primpy/bigbang.py", "primpy/parameters.py"],
     [("calibrate_scale_factor", "primpy/inflation.py"), ("get_a0 / get_H0", "primpy/bigbang.py")])

prop("C09", "Reheating parameters are mutually consistent however they are specified",
     "Whichever admissible combination of reheating inputs is given (nothing, equation of state with duration, equation of state with end density, model-agnostic shift with or without density, density alone, N_star with either), for flat and curved universes, the resulting set of duration, equation of state, end density (in both units), agnostic shift, end-of-reheating and end-of-inflation e-folds obeys the same physical relations: density dilution during reheating, entropy conservation from the end of reheating to today's CMB, and their combination for the agnostic shift. "
     "Feeding the derived values back in through another admissible combination reproduces the same calibration, instantaneous reheating is the common limit of all of them, and contradictory, negative or super-inflating requests are rejected with the documented error.",
     ["inputs", "configurations"],
     "backgrounds x K x combinations and values of (N_star, Omega_K0, w_reh, DeltaN_reh, rho_reh_GeV, DeltaN_minus1, g_th)",
     "Tests only check that cosmic-time and e-fold backgrounds agree with each other or a few single values; the relations between branches are never cross-checked.",
     ["primpy/inflation.py", "primpy/reheating.py", "primpy/units.py", "primpy/parameters.py"],
     [("calibrate_scale_factor reheating branches", "primpy/inflation.py"), ("is_instant_reheating", "primpy/reheating.py")])

prop("C10", "Slow-roll power spectra are correct and the reported parameters describe them",
     "For any calibrated slow-roll background the approximate scalar and tensor power spectra of every offered method and order reproduce the published slow-roll expansion evaluated on that background, so that they agree with each other and with the exact spectrum up to the next slow-roll order, in cosmic time and in e-folds alike. "
     "The reported A_s, n_s, running, running of running, A_t, n_t and r are the value and logarithmic derivatives at the pivot scale of the spectra selected at calibration, r is A_t/A_s, and the amplitude scales linearly with the potential while the shape does not change. "
     "Asking for a target spectral index yields a calibration that has it, or the documented error if it is out of range.",
     ["inputs", "configurations"],
     "potentials x amplitudes x N_star x methods x orders x wavenumbers x both formulations",
     "Tests assert rough agreement (5-10 percent, rtol 1e-2) for a couple of backgrounds; individual coefficients of higher orders are far below that.",
     ["primpy/inflation.py"],
     [("derive_approx_power_CGS/LLMS/STE/ARBDS", "primpy/inflation.py"), ("P_s_approx / P_t_approx / set_ns", "primpy/inflation.py")])

prop("C11", "Post-processing results depend on the last calibration only, not on history",
     "After any sequence of calibrations, target-n_s requests, spectrum queries (any method, order, scalar or tensor) and perturbation runs on one solved background, the reported quantities and spectra equal those of a freshly solved background given only the last calibration. "
     "Queries do not change any reported quantity, and a rejected request leaves subsequent valid requests unaffected.",
     ["histories", "inputs"],
     "sequences of calibrate / set n_s / query / perturbation operations on a solution object",
     "Tests calibrate each solution once (or re-calibrate with the same method and query nothing in between).",
     ["primpy/inflation.py"],
     [("cached approximate spectra on the solution object", "primpy/inflation.py: P_s_approx, P_t_approx, derive_approx_power_*"), ("in-place recalibration", "primpy/inflation.py: calibrate_scale_factor")],
     state="attributes attached to the solution bunch")

prop("C12", "Perturbation equations and vacuum initial conditions are exact",
     "For any background, geometry and wavenumber, the frequency and damping terms used for scalar and tensor modes are those of the gauge-invariant Mukhanov-Sasaki equation in curved space, so the cosmic-time and e-fold versions describe the same differential equation, reduce to the flat-space form for zero curvature, and are sampled on exactly the integrated segment of the background. "
     "Each vacuum choice has the normalisation that the canonical commutation relation demands (unit Wronskian of the canonically normalised mode) and its defining initial velocity, and gives the same physical mode in both formulations; the combination of the two numerical solutions reproduces these initial values.",
     ["inputs", "configurations"],
     "backgrounds x K x start index x k x vacua x both formulations",
     "Tests check agreement of a few frequencies between the formulations on one background and flat-space closeness; a term wrong in both formulations, or small at the tested wavenumbers, is not seen.",
     ["primpy/time/perturbations.py", "primpy/efolds/perturbations.py", "primpy/perturbations.py"],
     [("mukhanov_sasaki_frequency_damping", "primpy/time/perturbations.py, primpy/efolds/perturbations.py"), ("get_vacuum_ic_k/HD/RST", "primpy/time/perturbations.py, primpy/efolds/perturbations.py"), ("_get_coefficients_a_b", "primpy/perturbations.py")])

prop("C13", "Numerical power spectra equal an independent integration of the mode equation",
     "For any calibrated background, wavenumber and vacuum, the scalar and tensor power computed by the oscillatory solver equals that of a direct high-accuracy integration of the mode equation, within solver tolerance. "
     "The result does not depend on whether wavenumbers are passed singly or in an array, as integers or floats, in which order, which vacua are requested together, which basis of initial solutions is used, the formulation, how early the integration starts inside the horizon or how late it ends outside it, or whether dense output is requested; dense output itself lies on the true mode evolution, and wavenumbers are reported in inverse Mpc consistently with the calibration.",
     ["inputs", "configurations"],
     "backgrounds x K x wavenumbers x vacua x options of the solver call",
     "Tests compute spectra for fixed wavenumber lists on two or three backgrounds and compare the two formulations with rtol of a few percent.",
     ["primpy/oscode_solver.py", "primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"],
     [("solve_oscode", "primpy/oscode_solver.py"), ("oscode_postprocessing / _combine_solutions", "primpy/perturbations.py")])

prop("C14", "Big Bang expansion, horizon, conformal time follow the Friedmann equation",
     "For any present-day densities and h that admit a Big Bang, the Hubble parameter obeys the Friedmann equation with densities that sum to one and the standard present-day radiation, equals H0 today in each offered unit system, and the comoving Hubble horizon and the scale factor today are consistent with it in each unit system. "
     "Conformal time is the exact integral of the inverse comoving Hubble rate: additive over intervals, increasing, the same for array and scalar arguments, and the ratio of conformal time before to after the end of inflation is the quotient of the elapsed conformal times. Unknown unit systems are refused.",
     ["inputs", "configurations"],
     "(Omega_m0, Omega_K0, h) x N (scalar/array) x units",
     "Tests sample two or three parameter points and mostly check types or monotonicity.",
     ["primpy/bigbang.py", "primpy/units.py", "primpy/parameters.py"],
     [("Hubble_parameter, comoving_Hubble_horizon, conformal_time, conformal_time_ratio", "primpy/bigbang.py"), ("get_H0, get_a0, get_Omega_r0, get_rho_crit_kg_im3, get_N_BBN, get_w_delta_reh", "primpy/bigbang.py")])

prop("C15", "Universes without Big Bang or with recollapse are classified correctly",
     "For any matter and dark-energy density the dividing lines classify correctly: a universe above the no-Big-Bang line has a bounce (its squared expansion rate has a root in the past) and one below has not, and a universe below the recollapse line has a turning point in the future and one above has not. "
     "The Hubble parameter refuses universes without a Big Bang, warns exactly for recollapsing ones, and negative matter densities are rejected.",
     ["inputs"],
     "all (Omega_m0 >= 0, Omega_L0), including points arbitrarily close to the lines and at their branch points",
     "Tests evaluate the lines at a few points and check ordering, not against the dynamics.",
     ["primpy/bigbang.py", "primpy/exceptionhandling.py"],
     [("no_Big_Bang_line, expand_recollapse_line", "primpy/bigbang.py"), ("BigBangError / BigBangWarning in Hubble_parameter", "primpy/bigbang.py")])

prop("C16", "Cobaya power-law and feature spectra are the documented functions",
     "For any sampled parameters the power-law theory returns, on its declared logarithmic wavenumber grid, the scalar and tensor spectra with amplitude, tilt and runnings equal to the given parameters at the pivot scale, tensor amplitude consistent with r, and inflationary consistency relations when the tensor tilt is not given; contradictory tensor parameters are rejected. "
     "The feature theories (logarithmic oscillation, linear oscillation, cutoff) return the same spectra multiplied by the documented modulation, and coincide with the power law when the feature is switched off. "
     "Parameters that are optional in the power-law theory are equally optional in the feature theories.",
     ["inputs", "configurations"],
     "all subsets and values of supported parameters for each theory class",
     "There are no tests for the Cobaya wrappers.",
     ["cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py"],
     [("PowerLawPPS.calculate and helper functions", "cobaya_wrapper/powerlaw_pps.py"), ("LogOscillationPPS, LinOscillationPPS, CutoffPPS", "cobaya_wrapper/feature_pps.py")])

prop("C17", "Cobaya slow-roll theory delivers the requested inflation model",
     "For each offered potential and any realistic sampled parameters the slow-roll theory returns spectra with the requested scalar amplitude at the pivot scale (and requested n_s, N_star or reheating scenario, whichever was asked for), equal to those obtained by solving and calibrating that model directly, on its declared wavenumber grid. "
     "All derived parameters it promises are provided, agree with that directly solved model, and unrealistic reheating scenarios, and only those, are rejected.",
     ["inputs", "configurations"],
     "potential classes x parameters x (A_s, N_star | n_s | w_reh+rho_reh)",
     "There are no tests for the Cobaya wrappers.",
     ["cobaya_wrapper/slowroll_pps.py"],
     [("SlowRollPPS.calculate", "cobaya_wrapper/slowroll_pps.py"), ("subclass to potential mapping", "cobaya_wrapper/slowroll_pps.py")])

prop("C18", "Units, constants and version bookkeeping are coherent",
     "Reduced Planck units satisfy their defining relations (hbar = c = k_B = 8 pi G = 1 in those units) in SI and in GeV, derived cosmological constants (pivot scale, CMB and neutrino temperature, relativistic degrees of freedom, radiation density) follow from the base constants, and no two representations of one quantity disagree. "
     "For any pair of version strings the release check accepts exactly a single-step increment (next micro, next minor with micro reset, next major with minor and micro reset, or a pre-release step), and the version bump tool turns the current version into exactly that next version everywhere it is recorded. The release check as a whole passes exactly if the recorded versions agree with one another and are a single step from the released one.",
     ["inputs"],
     "all constants; all pairs of PEP 440 release / pre-release versions; all bump types",
     "Tests check a few constants to a few digits; the version tooling is not tested at all.",
     ["primpy/units.py", "primpy/parameters.py", "bin/utils.py", "bin/bump_version.py"],
     [("unit_incremented", "bin/utils.py"), ("bump_version script", "bin/bump_version.py"), ("unit definitions", "primpy/units.py, primpy/parameters.py")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), max(len(p['title']) for p in P))
