"""Property catalogue."""
VN = "static value numbering (abstract interpretation of the Python AST into a hash-consed term graph) with random-interpretation term equality"
LN = ("Each obligation is decided from the current source without executing it. Assumes the documented semantics of numpy/scipy (modelled or uninterpreted), real/complex "
      "arithmetic without rounding; term equality is by random interpretation at high precision (one-sided error with vanishing probability). "
      "Constructs outside the interpreter are reported as undecided, never as violations.")
INP = lambda t: {"over": ["inputs"], "text": t}
INC = lambda t: {"over": ["inputs", "configurations"], "text": t}
PROPS, NA = [], []


def prop(id, title, statement, quant, why, files, mech, technique=VN, note=LN, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why, anchors=a, technique=technique, level_note=note))


def na(id, title, statement, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, reason=reason))


A = "aesolver/aesolver/"
prop("P01", "Polytropic structure profiles obey the Lane-Emden equation",
     "Every structure profile computed for a polytrope equals its textbook definition in terms of the Lane-Emden solution, total mass and radius, for every polytropic index; "
     "the first, second and third radial derivatives of density, pressure and gravitational potential are the exact derivatives of the base profiles under the Lane-Emden equation.",
     INP("every Lane-Emden solution (any positive z, theta, theta'<0), polytropic index, adiabatic exponent, G, mass and radius"),
     "The tests evaluate two fixed polytropic indices on one grid; a wrong exponent or factor that cancels there passes, and the identity must hold for all indices.",
     [A + "polytropic_computations/polytrope_structure.py"],
     [("structure coefficients and derivative chain", A + "polytropic_computations")], observe=["property dictionary of the polytropic structure object"])
prop("P02", "Stationary three-mode solution satisfies the amplitude equations",
     "For every admissible triad the reported equilibrium amplitudes, threshold amplitude, detuning quality factors, relative phase, surface flux variations and luminosity phase equal the closed-form "
     "stationary solution of the quadratic amplitude equations, with viewing inclination and periastron argument entering only through the Hough functions at the observer and the azimuthal phase; "
     "a triad that fails the pre-check reports zero amplitudes and fluxes, no phases, and not stable.",
     INC("all driving/damping rates with a driven parent and damped daughters, detunings, coupling coefficients, disc integrals; inclination and periastron argument absent or given"),
     "The closed form must hold for all rates, detunings and complex luminosity terms; the tests use a handful of unit-valued mocks in which many factors coincide.",
     [A + "stationary_solving/three_mode/three_mode_stationary.py", A + "stationary_solving/generic/stationary_solve.py"],
     [("amplitudes, fluxes and phases", A + "stationary_solving/three_mode/three_mode_stationary.py")], observe=["dictionary returned by calling the stationary solver"])
prop("P03", "Linear stability pre-check is the Routh-Hurwitz condition of the triad",
     "A triad passes the stability pre-check exactly when it obeys the selection rules and is either a parametric resonance (driven parent, damped daughters) satisfying both the negative-sum and the quartic detuning condition "
     "(for harmonic two-mode resonances: the two-mode parametric condition), or a harmonic direct resonance satisfying the direct condition. For parametric triads the two conditions together are equivalent to linear stability "
     "of the fixed point of the amplitude equations, and the resonance-type predicates classify driven, direct and parametric triads by the signs of the rates.",
     INC("all linear rates, detuning ratios, spherical degrees, azimuthal orders; three-mode and two-mode resonances"),
     "Equivalence of inequalities over all real rates cannot be sampled by the nine parameter sets of the tests, which never approach the stability boundary.",
     [A + "stability_checker/three_mode/stab_checker_quadratic_three_sum.py", A + "stability_checker/two_mode/stab_checker_quadratic_two_sum.py", A + "pre_checks/specific/three_mode_checks.py"],
     [("stability predicates", A + "stability_checker"), ("pre-check combination", A + "pre_checks/specific/three_mode_checks.py")], observe=["verdict of the pre-check"])
prop("P04", "Azimuthal and meridional selection rules gate every coupling",
     "A triad is admitted exactly when its azimuthal orders, negated for conjugated modes (by default the first), sum to zero and its meridional orders l-|m| sum to an even number. "
     "Several triads are judged each from their own modes whatever their numbering, jointly or separately as requested, and an angular integral over three modes vanishes exactly when the azimuthal rule fails.",
     INC("all degrees and azimuthal orders, mode numberings, numbers of triads, conjugation patterns"),
     "The tests use a single triad with the default numbering and few conjugation patterns.",
     [A + "pre_checks/generic/generic_quadratic_checks.py", A + "angular_integration/rotating_tar_angular/hough_integration.py"],
     [("selection rules", A + "pre_checks/generic/generic_quadratic_checks.py"), ("azimuthal gate", A + "angular_integration/rotating_tar_angular/hough_integration.py")])
prop("P05", "Fixed-point Jacobian and hyperbolicity verdict",
     "The Jacobian assembled for a mode triad is the derivative of the real amplitude equations at their stationary fixed point, and the harmonic two-mode Jacobian has its documented closed-form entries. "
     "A fixed point is reported hyperbolic exactly when no eigenvalue has a vanishing real part and the determinant is non-zero; a failing eigenvalue or determinant computation means not hyperbolic.",
     INP("all rates, frequencies, detuning ratios and coupling coefficients; all Jacobians, including ones for which the linear algebra fails"),
     "Sixteen entries over eleven free parameters are pinned by the tests at one parameter point; the failure path of the linear algebra is never exercised.",
     [A + "stability_checker/hyperbolicity/hyperbolicity_checker.py"], [("Jacobians and verdict", A + "stability_checker/hyperbolicity/hyperbolicity_checker.py")])
prop("P06", "Angular coupling integrals use the stated quadrature",
     "An angular integral of a product of Hough functions equals 2 pi times the integral over mu of their product, divided by sin(theta) and multiplied by mu when requested, computed with the requested "
     "integration method and threading. The Chebyshev route evaluates the Chebyshev-Gauss sum with the weight sqrt(1-mu^2) accounted for, and the blow-up protection returns the direct result unless it exceeds the blow-up factor.",
     INC("all Hough-function samples and mu grids, one to three factors, every route and flag combination"),
     "The tests cannot enumerate route x flag combinations on all integrands, and the module's own tests do not even collect in a plain checkout.",
     ["aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py"],
     [("direct, Chebyshev and blow-up protected quadrature", "aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py")])
CC = A + "coupling_coefficients/"
prop("P07", "Quadratic coupling coefficients equal the displacement-tensor contractions",
     "The four parts of a quadratic coupling coefficient equal the volume integrals of the symmetrised contractions of the three modes' displacement gradients and divergences (with each term's pressure, adiabatic-exponent or gravity weight), "
     "are zero when the azimuthal selection rule fails, and add up to the coefficient; normalising divides by the first mode's energy, and each mode's energy is the stated kinetic plus Coriolis integral. "
     "This holds for analytic polytropes, numerical structure models, models on other radial grids, self-coupling, and for the cumulative radial profile, with the quadrature settings the user asked for.",
     INC("all eigenfunctions, Hough functions, structure profiles, rotation rates and azimuthal orders; every derivative, structure-model, conjugation, self-coupling and quadrature configuration"),
     "The module's own tests do not collect in a plain checkout, and any test fixes one triad on one model: exchanging two tensor components or a weight that happens to agree there stays unnoticed.",
     [CC + "quadratic_coupling_coefficient_rotating.py", CC + "coefficient_support_classes/super_coupling_coefficients.py", CC + "coefficient_support_classes/coupling_coefficient_rotating.py", "gyre-tools/gyre_cutter/gyre_cutter.py",
      A + "angular_integration/rotating_tar_angular/hough_integration.py"],
     [("coefficient terms, energies and profiles", CC + "quadratic_coupling_coefficient_rotating.py"), ("structure profiles and grid interpolation", CC + "coefficient_support_classes/super_coupling_coefficients.py"),
      ("radial vectors and gradients", CC + "coefficient_support_classes/coupling_coefficient_rotating.py")])
FH = A + "frequency_handling/"
prop("P08", "Frequencies, spins, detunings and damping ratios are unit- and frame-exact",
     "Whatever the units and reference frame of the oscillation data and the requested units, inertial and co-rotating frequencies differ by m times the surface rotation frequency, angular and cyclic ones by 2 pi, "
     "and dimensionless ones are the physical ones times the dynamical time. Detuning, spin factors, driving rates, quality factors and their pair products, and the detuning-to-damping ratios follow from these by definition, "
     "for adiabatic and non-adiabatic data alike.",
     INC("all complex mode frequencies, azimuthal orders, rotation rates, masses and radii; every supported input unit, requested unit, frame and rotation-data source"),
     "The tests request one unit (Hz); the other unit/frame/rotation-source combinations are never evaluated.",
     [FH + "frequency_handler.py", FH + "enumeration_files/enumeration_freq_converter_normalization.py"],
     [("frequency handler", FH + "frequency_handler.py"), ("unit conversion table", FH + "enumeration_files/enumeration_freq_converter_normalization.py")])
MH = A + "model_handling/"
prop("P09", "Model data keep their meaning and units on loading",
     "Quantity and attribute values read from a model file reach the solver under their own name, mode k of the result being mode k of the request, and a request that does not match exactly one file stops the program. "
     "Each quantity is multiplied by its CGS-to-SI factor exactly when SI units are requested, complex ones are assembled from their real and imaginary parts, and the dimensional counterpart is the quantity times its unit. "
     "The gravitational constant, stellar mass and radius attached to a model belong to the same unit system.",
     INC("all file contents, unit-system spellings, numbers of modes and file kinds (stellar profile, mode, polytropic structure, polytropic mode)"),
     "The loader's own tests do not collect in a plain checkout, run in CGS only and check a few keys of mock files; every key of four tables in two unit systems must be right.",
     [MH + "load_models.py", MH + "read_models.py", MH + "enumeration_files/enumeration_models.py", MH + "enumeration_files/enumeration_dimensions.py", "num-tools/carr_conv/carr_conv.py"],
     [("loading and conversion", MH + "load_models.py"), ("unit and name tables", MH + "enumeration_files/enumeration_models.py"), ("dimensional quantities", MH + "enumeration_files/enumeration_dimensions.py")])
prop("P10", "Only the requested model files are read",
     "A mode file is read for a requested mode exactly when its name carries that mode's degree, signed azimuthal order, radial order, g- or p-mode tag and the requested substrings; "
     "a structure file exactly when it has the requested suffix and substrings and, for stellar profiles, is no GYRE output. "
     "Every accepted regular file of its kind's own directory (given, or the only one whose name says so) is read by the reader its suffix calls for, results come back in the order of the requested modes, and a missing or ambiguous file or directory stops the run.",
     INC("all file names built from a prefix and the quantum-number fields in any order (multi-digit numbers, both signs of m), all substring configurations, mode indices and directory contents"),
     "The tests scan directories of three well-separated file names with one order of fields; multi-digit, negative or suffix-like names are never offered.",
     [MH + "subselection_classes.py", MH + "read_models.py", MH + "load_models.py", MH + "enumeration_files/enumeration_read.py"],
     [("name patterns and accept conditions", MH + "subselection_classes.py"), ("directory scan and readers", MH + "read_models.py")])
HT = "hough-func-tools/"
prop("P11", "Hough functions solve the tidal equation and keep their parity",
     "For every spin parameter, degree and order the radial Hough function is the real solution of Laplace's tidal equation with negative eigenvalue nearest to the requested one, normalised to unit maximum and non-negative next to the equator; "
     "the latitudinal and azimuthal functions follow from it, and each published derivative is the derivative (in mu or theta) of the function published next to it, in all three sign/sine conventions. "
     "On the southern hemisphere every function continues the northern values with the parity implied by l-|m| on one ascending mu grid, the collocation matrices are the first two derivatives of the parity-adapted Chebyshev basis, and normalisation factors are the stated ones.",
     INC("all spin parameters, latitudes and eigenvectors; degree/order pairs of both signs and parities; three conventions; collocation sizes 4 to 10"),
     "The repository has no test of the Hough functions themselves; a sign or parity error in a derivative changes coupling coefficients without any visible failure.",
     [HT + "hough_function/hough_function.py", HT + "cheby_transform/cheby_transform.py", HT + "hough_function/hough_normalizer.py", A + "angular_integration/rotating_tar_angular/hough_function_handler.py"],
     [("tidal operator, components, derivatives and parity", HT + "hough_function/hough_function.py"), ("collocation matrices", HT + "cheby_transform/cheby_transform.py"), ("normalisation", HT + "hough_function/hough_normalizer.py")])
NI = "cpp-numintegrator/num_integrator/"
prop("P12", "Numerical integration applies the stated rule on every grid, race-free",
     "The integral of sampled values is the trapezoid sum over the actual grid; Simpson's 1/3 rule replaces it only when requested for an equally spaced grid that really is equally spaced and has an odd number of points. "
     "The inputs stay untouched, the value does not depend on the parallel option or on thread scheduling (no data race), fewer than two points give zero, and arrays of different lengths are refused instead of being read out of bounds.",
     INC("all integrand values; grids of 1 to 13 points (thorough: 25, and lengths around every literal of the source), even, uneven and almost even, ascending and descending; both rules, both flags, serial and parallel"),
     "The tests integrate one five-point even grid whose trapezoid and Simpson values coincide, so neither the weights nor the fall-backs nor the races can be seen.",
     [NI + "num_integration.cpp", NI + "libcpp_num_integrator.pyx"],
     [("quadrature rules", NI + "num_integration.cpp"), ("wrapper", NI + "libcpp_num_integrator.pyx")])
DI = "cpp-disc-integrator/disc_integrator/"
LD = "cpp-ld-funcs/ld_funcs/"
prop("P13", "Disc integrals weight the visible hemisphere with the right integrands",
     "The limb-darkening values are 1 + 3/2 mu for every latitude. The two disc integrals of an angular function f are the quadratures, over exactly the points with 0 <= mu <= 1 and with all arrays kept aligned, of mu f h and of (2 mu f' + (mu^2-1) f'') mu h, "
     "with the requested rule (the trapezoid when the selected points are unevenly spaced); serial and parallel evaluation agree and are race-free, inputs stay untouched, and arrays of different lengths are refused.",
     INC("all function and derivative values on even, uneven, descending, one-sided and out-of-range latitude grids; both rules; serial and parallel"),
     "The tests use one five-point even grid with fixed numbers; misaligned selections, interchanged derivatives or races that vanish there stay hidden.",
     [DI + "disc_integrals.cpp", DI + "libcpp_disc_integration.pyx", LD + "ld_functions.cpp", LD + "libcpp_ld_funcs.pyx"],
     [("selection and integrands", DI + "disc_integrals.cpp"), ("limb darkening", LD + "ld_functions.cpp"), ("wrappers", DI + "libcpp_disc_integration.pyx")])
FN = "fornberg-num-deriv/fornberg_num_deriv/"
prop("P14", "Numerical derivatives are exact to the requested order and in bounds",
     "The weights of the arbitrary-grid method give the exact k-th derivative of every polynomial of degree up to the requested accuracy at every point of any distinct grid, ascending or descending; gradient and stencil methods are exact to their order. "
     "The differentiator returns function and derivatives, in order, at the given abscissae (also when it refines the grid internally), and leaves its inputs alone. "
     "Every request either stays within all arrays and sets every result element or is refused with a message.",
     INC("all polynomials up to the accuracy on even, uneven and descending grids; accuracies 1 to 20 (and refused ones), derivative orders 0 to 20, minimal and larger grids; all methods, refinement factors and stencil types"),
     "The tests differentiate two fixed functions on one even five-point grid with accuracy 4; weights wrong on uneven grids, at the ends or for other accuracies, and overflows at the limits, stay invisible.",
     [FN + "fornberg.f90", FN + "f90wrap_fornberg.f90", "num-tools/num_deriv/num_deriv.py", "num-tools/num_deriv/stencils.py"],
     [("weights and grid handling", FN + "fornberg.f90"), ("methods, result list and internal refinement", "num-tools/num_deriv/num_deriv.py"), ("stencils", "num-tools/num_deriv/stencils.py")])

HJ = "histogram_maker/hogg_jacky/"
prop("P15", "Histograms: the likelihood-optimal binning, correctly counted",
     "Every histogram routine, whatever its back end and degree of parallelism, returns the binning with the largest jackknife likelihood (the first on a tie) among the candidate bin numbers and smoothing parameters, with the edges, widths and parameters of that binning. "
     "Each valued data point is counted exactly once, in the bin holding it, rounding of the outer edges of logarithmic bins included; probabilities sum to one, densities integrate to one, and missing values never count. "
     "Without usable data no histogram is returned, one point gives the requested single bin, and the given arrays are left alone.",
     INC("all smoothing parameters above 1 (symbolic) and likelihood comparisons at their ties, over a fixed family of data sets (even, clumped, repeated extremes, unsorted, with missing values, pairs), 1 to 6 bins, all output modes and back ends; the compiled kernels over symbolic data"),
     "The tests bin one or two fixed samples per back end with one candidate; a wrong likelihood, a dropped extreme point, a normalisation including missing values or one bad width appears only for other samples, modes or candidates.",
     [HJ + x for x in ("numpy_iterator_jacky.py", "blas_jacky.py", "numexpr_jacky.py", "cython_jacky/cy_jacky.py", "shared/shared_computation_functions.py", "shared/shared_handling_functions.py", "cython_jacky/cython_jacky_jacky.pyx", "cython_jacky/cython_jacky_binning.pyx")],
     [("numpy and iterator back ends", HJ + "numpy_iterator_jacky.py"), ("BLAS back end", HJ + "blas_jacky.py"), ("numexpr back end", HJ + "numexpr_jacky.py"), ("Cython back end and kernels", HJ + "cython_jacky"), ("shared helpers", HJ + "shared")])

PCB = "py-combinations/"
prop("P16", "Triad selection enumerates every requested combination once",
     "The triads offered to the solver are each requested driven radial order with every admissible unordered pair of damped orders, once, from one range or from two possibly overlapping ones (equal orders only when requested), with mean order and order-difference statistic in step. "
     "The combination classes list every pair once with the matching cardinality, independent of set iteration order. "
     "The pairing functions map distinct pairs to distinct integers, the symmetric ones ignore the order of the pair, and decoding returns the pair.",
     INC("pairing: all integers; combinations: all overlap patterns of two sets of up to 3 (thorough: 4) elements, ascending and descending iteration; triads: positive and negative orders, one range and all overlaps of two ranges"),
     "The tests list a few tiny sets and even pin a duplicated pair; the inverse pairings have no test at all and failed on every call.",
     [PCB + "py_combinations/symmetric_product.py", PCB + "py_combinations/single_set_combinations.py", PCB + "py_combinations/cartesian_combinations.py", A + "mode_input_generator/input_generator.py", PCB + "pairing_functions"],
     [("combinations", PCB + "py_combinations"), ("triads and statistics", A + "mode_input_generator/input_generator.py"), ("pairing functions", PCB + "pairing_functions")])

SV = A + "solver/"
prop("P17", "Every triad is solved from its own data with the requested options",
     "Each requested triad is solved once, in order, from the modes, structure and driving rates loaded for its own degrees and orders, with every option of the solver reaching the computation it controls; a coupling coefficient is computed exactly when the data are polytropic, stationarity is not requested or the pre-check passes. "
     "The results kept for triad k are those of triad k, in the documented order: coupling, frequencies, hyperbolicity by the matching Jacobian, statistics and stationary solution. "
     "Surface luminosity and displacement terms are the modes' surface values times their own normalisation factors, and the disc integrals use the modes' own Hough functions.",
     INC("all option values (symbolic) in all front ends; polytropic, adiabatic and non-adiabatic data, stationarity, pre-check outcomes, two- and three-mode resonances enumerated"),
     "No test runs a solver; swapping two options in the 32-argument constructor chain, using the data of another mode or shifting an index in a result tuple compiles and passes all tests.",
     [SV + x for x in ("quadratic_grid.py", "quadratic_profile.py", "quadratic_solver.py", "solver_base_classes/quadratic_solver.py")],
     [("options and grid order", SV + "quadratic_grid.py"), ("loading, coupling, result tuples, surface terms", SV + "solver_base_classes/quadratic_solver.py"), ("profile front end", SV + "quadratic_profile.py")])
DH = A + "data_handling/"
prop("P18", "Result files hold each quantity under its own name and are found again",
     "A result file holds, at every path, the quantity that path names, in the row of its own triad, in double precision, missing stationary quantities as NaN; polytropic files hold no driving, non-adiabatic or stationary data, and the integration options and quantum numbers are attached. "
     "It is written anew as <directory>/<name>_k_.._m_..h5 whatever the requested name, and the reading tools compose that very name. "
     "The readers take each quantity from the path where it was stored, join several files of a model in order, open files read-only and close them.",
     INC("all stored values (symbolic) of two triads with and without a stable stationary solution, with and without stellar data; a battery of names and directories with dots, dashes, blanks and slashes; one, several and nested lists of files"),
     "No test saves or loads anything; two interchanged data sets, a shifted tuple index or a mismatched file name shows only when published numbers are wrong.",
     [DH + "unpacker.py", DH + "storer.py", DH + "data_specific/hdf5_saver.py", A + "read_load_info/load_name_plots.py", "aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py", "aesolver/aeplotter/data_files/hdf5_data_path_mapper.py"],
     [("unpacking of result tuples", DH + "unpacker.py"), ("file names and directories", DH + "storer.py"), ("data sets and attributes", DH + "data_specific/hdf5_saver.py"), ("file-name builder of the readers", A + "read_load_info/load_name_plots.py"), ("readers", "aesolver/ae_analyzer/quadratic_stationary_analyzer.py")])
AR = "aesolver/aerunners/"
prop("P19", "A run does what its inlist and command line say",
     "Every run reads the inlist named on its command line, or the shipped one, from whatever work directory; each inlist entry reaches the one option of the solver, result file, analysis or figure it is documented for, an empty entry means no value, and the shipped inlist holds every entry that is read. "
     "Exactly one of a grid or a profile is computed, a computed grid is saved once under the requested name, and polytropic runs use the polytropic selection. "
     "Exactly the requested analyses and figures are made, and an incomplete command line or a missing inlist is refused before anything is computed.",
     INC("all inlist values (every leaf a distinct symbol), each switch of the inlist both ways; grid, profile and polytropic runs; a battery of work directories, directory and inlist names, and incomplete command lines"),
     "No test runs a script, and the option names pass through three layers of string keys: exchanging two entries of the same type, or a path that only resolves from one directory, compiles and passes all tests.",
     [AR + x for x in ("solve_quadratic.py", "analyze_quadratic.py", "plot_quadratic.py", "data_modules")] + ["util-tools/generic_parser", "util-tools/inlist_handler", "util-tools/path_resolver", "util-tools/log_formatter", "inlists/inlist.toml", A + "read_load_info/read_info_dirs.py"],
     [("solve runs", AR + "solve_quadratic.py"), ("analyses", AR + "analyze_quadratic.py"), ("figures", AR + "plot_quadratic.py"), ("command line", "util-tools/generic_parser/generic_parser.py"), ("inlists", "util-tools/inlist_handler"), ("information folders", A + "read_load_info/read_info_dirs.py")])
AA, AP = "aesolver/ae_analyzer/", "aesolver/aeplotter/"
prop("P20", "Analysed quantities follow their definitions for every triad",
     "For every stored triad the analysis and plotting tools derive, without touching the stored results: the detuning of its corotating frequencies and its ratios, rotation frequency and spin parameters (of a sectoral m = 1 first daughter), rates, quality factors and dimensionless estimators, all in consistent units. "
     "Threshold luminosity variations exist exactly for parametric triads with a nonzero theoretical amplitude, and amplitude ratios are damped over driven (parametric) or driven over damped (direct), missing when a denominator is zero or missing. "
     "Nonlinear frequency shifts lock the triad exactly, and the drawn frequency is the smallest shifted one, negative values reflected into the observable range.",
     INP("every frequency, rate, amplitude and coupling of the stored triads (symbolic); parametric, direct and other triads with positive, zero and missing amplitudes; reflections at and inside each of the first four Nyquist zones"),
     "Neither tool has a single test; a sign, a swapped daughter or a missed factor only shifts published distributions.",
     [AA + "quadratic_stationary_analyzer.py", AA + "utility_functions.py", AP + "quadratic_plotter.py", AP + "utility_functions.py"],
     [("analysis", AA + "quadratic_stationary_analyzer.py"), ("figures", AP + "quadratic_plotter.py")])
prop("P21", "Analyses and figures count, print and draw exactly the triads they announce",
     "A triad is stable when all three stability checks hold, AE-valid when its detuning is at most a tenth of its smallest frequency, and isolated when it is parametric, has the lowest threshold of all triads its modes take part in and saturates its parent below that parent's next threshold, if any; combined categories are intersections, the drawn ones are disjoint, and limits on threshold luminosity or detuning keep exactly the triads within them. "
     "The printed analyses give, per model and for exactly the triads of the announced category, the announced quantities in the announced units, and correct counts. "
     "The overview draws both amplitude ratios of each selected triad at its observed frequency, the sharpness figure the probabilities in common bins, and each figure is saved once per requested format at its place.",
     INC("all ways one or two parametric triads share parents and daughters, with thresholds in any order, saturation below and above the next threshold, harmonics and non-parametric triads, samples of those with three (thorough: four) triads; all combinations of stability checks, isolation, harmonics and detunings inside, at and outside the limit; symbolic data for what is printed and drawn"),
     "Neither tool has a single test; a mask of another category, a threshold of another mode or a factor in a printed unit goes unnoticed.",
     [AA + "library_functions/masking.py", AP + "library_functions/masking.py", AA + "quadratic_stationary_analyzer.py", AP + "quadratic_plotter.py", AP + "overview_plot", AP + "resonance_sharpness"],
     [("masks of the analysis", AA + "library_functions/masking.py"), ("masks of the figures", AP + "library_functions/masking.py"), ("printed analyses", AA + "quadratic_stationary_analyzer.py"), ("overview figure", AP + "overview_plot/plot.py"), ("sharpness figure", AP + "resonance_sharpness/plot.py")])
prop("P22", "Profile runs adjust the coupling to the zones where the TAR is valid",
     "A profile run calls a point of the star valid for the TAR when its scaled buoyancy frequency is real, exceeds twice the rotation frequency and exceeds every mode frequency; the adjusted coupling profile is constant across invalid zones and follows the increments of the computed one in valid zones, wherever the zones start and end. "
     "The adjusted coefficient is its surface value, and the predicted amplitudes and luminosity variations scale with its magnitude relative to the computed one. "
     "The figures shade exactly the valid points, draw the computed and the adjusted profile, and are saved under the announced names.",
     INC("all patterns of valid and invalid points on grids of up to five points (thorough: more), with invalid points failing for each of the three reasons; both solvers that make profiles; parametric, direct and stable quality factors; symbolic profiles"),
     "No test runs a profile; a mask shifted by one point, a zone starting at the centre or ending at the surface, or a missing magnitude shows only for stars with such zones.",
     [SV + "quadratic_profile.py", SV + "quadratic_solver.py", SV + "profile_plot_classes", SV + "profile_print_functions"],
     [("profile runs", SV + "quadratic_profile.py"), ("zones and adjustment", SV + "profile_plot_classes/coupling_coefficient_plots/plot_template.py"), ("printed predictions", SV + "profile_print_functions/coupling_coefficient_print_functions.py")])
prop("P23", "Kernel figures show the products that are integrated",
     "In the kernel figures of a profile run every curve is the product its label announces, factor, cosine and inverse sine included, of the functions of the modes named, against its own coordinate; radial kernels carry the weight of their product in the coupling coefficient and the announced energy scale. "
     "Per contribution the figures show exactly the products that the coefficient integrates, and every distinct assignment of functions to modes once. "
     "Each term has axes of its own in one figure named after its kind and contribution, with the TAR-valid zones shaded in radial figures.",
     INC("all mode functions and structure profiles (symbolic) of complete profile runs with kernel figures, both solvers that make profiles, several patterns of TAR-valid points; every curve, label, title and file name"),
     "No test draws a kernel; a label and a curve that disagree, or a term missing from the figures, misleads without failing.",
     [SV + "profile_helper_classes", SV + "profile_plot_classes/kernel_plots", SV + "quadratic_profile.py"],
     [("angular kernels", SV + "profile_helper_classes/angular_kernels/angular_kernel_helper.py"), ("radial kernels", SV + "profile_helper_classes/radial_kernels"), ("figures", SV + "profile_plot_classes/kernel_plots")])
prop("P24", "All modes are normalised to the same energy, and everything scales along",
     "Before a coupling coefficient is computed each mode is rescaled by the square root of the conventional energy G M^2 / R (or norm M R^2) over its own; every radial function and gradient of the mode, and its luminosity perturbation, is multiplied by that one factor, and the mode then has the conventional energy. "
     "Iterative refinement, when requested, goes on with just the modes that are not normalised yet until all are or the allowed number is reached, and the reported factors and iteration counts are the ones applied. "
     "Each normalised coupling term is the unnormalised one times the factors of its three modes.",
     INP("all eigenfunctions, with mode energies that are arbitrary quadratic forms; both conventions, one to four modes, polytropes and stellar models; modes that converge at once, after one or two refinements, or never, with one to ten iterations allowed; complete coefficient computations with the real normaliser"),
     "Tests build the normaliser but never check what a normalised coefficient becomes: a function left out or scaled by the factor of another mode rescales published coefficients by orders of magnitude.",
     ["gyre-tools/gyre_eigen_norm", CC + "enumeration_files/enumerated_quadratic_coupling.py", CC + "quadratic_coupling_coefficient_rotating.py"],
     [("normaliser", "gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py"), ("conventions", "gyre-tools/gyre_eigen_norm/enumeration_modules/enum_norm.py"), ("what is scaled", CC + "enumeration_files/enumerated_quadratic_coupling.py")])
prop("P25", "Tidal eigenvalues are those of each mode's own GYRE table and spin",
     "The eigenvalue of the Laplace tidal equations of a mode is read from the GYRE table named after its azimuthal order m and its k = l - |m|, each with a single sign, at the spin parameter of that mode; for several modes in the order of the modes, from the GYRE directory given or else that of the environment. "
     "A missing directory, table, variable or GYRE module is refused. "
     "The angular functions of every mode of a triad are computed from its own eigenvalue, spin parameter, degree and azimuthal order.",
     INP("the spin parameter (symbolic); all modes of degree below 5 (thorough: 9) with every azimuthal order up to one beyond the degree; triads of modes; a battery of incomplete installations; complete coefficient computations of polytropes and stellar models"),
     "The table reader has no test (its module could not even be imported), and functions computed with the eigenvalue of another mode are smooth and plausible.",
     ["gyre-tools/lam_tar_gyre", CC + "quadratic_coupling_coefficient_rotating.py"],
     [("tables", "gyre-tools/lam_tar_gyre/lam_tar_gyre.py"), ("functions of the modes", CC + "quadratic_coupling_coefficient_rotating.py")])
prop("P26", "No path runs into a name, member, argument or result that does not exist",
     "Every Python source file is valid, and everything it imports from the repository, numpy or the standard library exists. "
     "On every path, rarely taken branches and error handling included, each global name is defined, each attribute of a known module, class, enumeration or own object exists, no local variable is read where nothing can have been assigned to it, and each result is unpacked into as many variables as it has parts. "
     "Each call of a known function, method or constructor, the compiled ones included, passes only arguments it accepts and all that it requires.",
     INC("every Python source file outside the tests, every function and every reference in it whose target is known (about 10 000 references), independent of any input"),
     "Tests reach a fraction of the branches; a renamed parameter or a mistyped member in an option or error branch stays unnoticed until a user takes it, as ten such defects in the original tree show.",
     ["aesolver", "gyre-tools", "hough-func-tools", "num-tools", "histogram_maker", "py-combinations", "util-tools", "cpp-ld-funcs", "cpp-disc-integrator", "cpp-numintegrator", "run_scripts"],
     [("all sources", "aesolver")], observe="crash (or not) of the entry points", technique="whole-program linking over the syntax trees: symbol tables, class graph, call signatures, reaching assignments")
prop("P27", "Comparison figures confront each mode with its own non-adiabatic version",
     "The comparison of adiabatic and non-adiabatic oscillations takes both from their own directories for the same degrees, azimuthal orders, radial orders and structure model. "
     "Each panel shows the announced part of the announced displacement of one mode, adiabatic and non-adiabatic under these names, each against its own radius or enclosed mass relative to the star, headed by the quantum numbers, both frequencies, their unit and reference frame. "
     "Each structure figure shows the announced profiles under their own labels, or their announced difference, against radius or mass in units of the largest value, within the requested limits; inconsistent requests end the run with nothing drawn.",
     INC("every figure of the tool for both coordinates, all frequency units, text and byte attributes, defaults and every option of the two figure methods, on symbolic modes and profiles"),
     "No test imports the plotting classes; a figure that confronts two different modes, or one mode's imaginary part with another's real part, looks entirely plausible.",
     ["aesolver/aesolver/ad_nad_comparer", "gyre-tools/gyre_unit_converter"],
     [("files and figures", "aesolver/aesolver/ad_nad_comparer/comparer.py"), ("mode figures", "aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py"), ("structure figures", "aesolver/aesolver/ad_nad_comparer/plotting/mesa_plotter.py")], observe="content of the comparison figures")
prop("P28", "Custom-format inlists and folder files mean what they say",
     "An inlist in the custom format yields, for every entry, the value written with its type: quoted strings verbatim, booleans, None, integers, floats (signs and exponents included), and lists and tuples of these, whatever comments, blank lines, blanks around the equal sign or other entries surround it. "
     "Its entries override those of the file of the same name in the neighbouring defaults directory, whose other entries stay, nothing is carried over to the next read, and a run takes its values, switches it negates included, from the inlist named on its command line, else by its full path, else by its parts. "
     "An information folder file gives every folder entry the value under its describing comment in any order; unknown comments, unreadable values and missing files are refused.",
     INC("every kind of literal in every spelling of the format, all lists and tuples of up to two elements of 14 kinds, all sixteen folder entries in several orders, and all ways of naming the files"),
     "The single test reads one value of each of seven kinds; a list of booleans read as one boolean, or a lost minus sign, silently changes the physics of a run.",
     ["util-tools/inlist_handler", "util-tools/generic_parser", "util-tools/path_resolver", "aesolver/aesolver/read_load_info"],
     [("typed reading", "util-tools/inlist_handler/inlist_handler.py"), ("folder files", "aesolver/aesolver/read_load_info/read_info_dirs.py"), ("comment to key", "aesolver/aesolver/read_load_info/enumeration_files/enumeration_read.py")], observe="values read from the text files")
prop("P29", "The published figure scripts show the model's stability domains and threshold",
     "In each panel of the stability-domain figure the filled domain is where the stability conditions of the model hold, and the hatched and contoured one where the original condition of 1982 holds, for the damping ratios on the axes and the detuning announced for that panel, over the whole grid. "
     "The threshold estimate uses exactly the three triads nearest to amplitude ratio one on either side, regresses damping ratio on amplitude ratio, and prints the value of the line at ratio one with its uncertainty, slope and intercept. "
     "Each row is saved under its own name, annotated if requested.",
     INC("both rows with and without annotation, all six detunings, damping ratios far from and close to the boundaries of the domains, the published table and data sets with every arrangement of triads around the threshold"),
     "No test imports the scripts; a wrong coefficient only bends the drawn boundary, a wrong selection only shifts a printed number.",
     ["VB_et_al_2024_additional_plot_compute_scripts"],
     [("stability domains", "VB_et_al_2024_additional_plot_compute_scripts/dziembowski_subplot.py"), ("threshold", "VB_et_al_2024_additional_plot_compute_scripts/compute_threshold_theta.py")], observe="content of the figures, printed estimate")
prop("P30", "The debug record shows each quantity's own extremes and changes nothing",
     "Asking a coupling coefficient for debugging information changes none of its results. "
     "The record printed with the result gives, for every structure profile, radial eigenfunction, gradient, divergence and Hough function of each mode, the largest, smallest, three innermost and three outermost values of exactly the quantity it is named after, normalised entries those of the normalised quantity. "
     "Without the request nothing is recorded or printed.",
     INC("polytropes and stellar models, analytic, symbolic and numerical derivatives, modes on equal and on unequal grids, every quantity of the record (about 230 per case) on symbolic profiles"),
     "The tests never print the record; an entry that reports the neighbouring quantity misleads exactly when someone is looking for an error.",
     ["aesolver/aesolver/coupling_coefficients"],
     [("record of one quantity", "aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py"), ("mode quantities", "aesolver/aesolver/coupling_coefficients/coefficient_support_classes/coupling_coefficient_rotating.py"), ("printing", "aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py")], observe="printed debug record, coefficients")
prop("P31", "Nothing handed over is altered, and no call depends on the calls before it",
     "No array, list, dictionary or object passed to an entry point - mode and structure data, selections, settings, samples, results being analysed or plotted - is altered, at any depth, by the call or by later calls on the object made from it; "
     "the documented outputs (arrays filled in place by the compiled routines, eigenfunctions scaled by the normaliser, switches taken out by the logging helper) are the only exception. "
     "No call changes a table, a class-level list or a default value of the program, so what it returns does not depend on earlier calls.",
     INC("every entry-point call made by the analyses of twenty-one other properties (about 780 pairs of entry point and argument over some 100 source files), on every path those analyses follow"),
     "A triad is one of thousands computed from the same loaded modes in one process; tests call everything once with fresh data, so an alias written to, or a default dictionary that grows, cannot show.",
     ["aesolver", "gyre-tools", "hough-func-tools", "num-tools", "histogram_maker", "util-tools", "py-combinations"],
     [("coefficients", CC + "quadratic_coupling_coefficient_rotating.py"), ("loading and units", "aesolver/aesolver/model_handling"), ("analysis", "aesolver/ae_analyzer"), ("histograms", "histogram_maker")],
     observe="content of what was handed over, and outcome of a second call", technique="effect analysis: abstract heap reachable from arguments, module tables, class attributes and default values compared before and after each call")
prop("P32", "An argument left out means what the documentation says",
     "For every function, method and constructor whose documentation states the default of an optional argument, leaving the argument out has the effect of passing that value: the same tolerance, order, convention, number of iterations, unit or switch. ",
     INC("every optional parameter of the Python sources outside the tests whose documentation states a value (about 410), constants of the module and sentinels replaced in the body included; documentation that states no value (a description only) is not judged"),
     "Tests pass most arguments explicitly; a changed default silently changes the accuracy, convention or selection of every run that relies on it, as seven contradictions in the original tree show.",
     ["aesolver", "gyre-tools", "hough-func-tools", "histogram_maker", "num-tools", "util-tools", "py-combinations"],
     [("constructors and functions", "aesolver/aesolver"), ("normalisation", "gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py"), ("histograms", "histogram_maker/hogg_jacky")],
     observe="result with the argument left out and with the documented value", technique="query over the syntax trees: constant evaluation of defaults and of the values stated in docstrings")
