"""The properties, one entry each; mkprops.py writes properties.jsonl from them."""
PK = "cuprates_transport/"
BS, CO, AD, SC = PK + "bandstructure.py", PK + "conductivity.py", PK + "admr.py", PK + "scattering.py"
FM, FP = PK + "fitting_admr_parallel_multiT.py", PK + "fitting_admr_parallel_oneT.py"
FSM, FSO = PK + "fitting_admr_series_multi_T.py", PK + "fitting_admr_series_oneT.py"
FITS = [FM, FP, FSM, FSO]

NOTES_TESTS = "The tests build two bands once and compare a few first array elements and one tensor component at fixed parameters; "


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "observe_at": list(observe), "hook_needed": None}}


PROPS = [
    p("C01", "Changing a band parameter leaves no stale Fermi-surface result",
      "After a band-structure object has been discretized, any public way of changing a band parameter, the whole parameter set or the energy scale (including the solvers that set the chemical potential to a target doping) leaves none of its documented results (Fermi-surface points, velocities, element areas, path lengths, densities of states, mass, filling, doping, per-slice counts) computed with the previous value: each is either emptied or recomputed. A new run then yields exactly the results of an object built with the new values. Assigning an unknown parameter name does not add a parameter.",
      ("histories", "inputs"), "all sequences discretize -> change (item, method, whole dictionary, energy scale, doping solver) -> inspect / run again, in every discretization mode and lattice symmetry, for all parameter values",
      NOTES_TESTS + "the only history test changes one parameter of one band and looks at three arrays.",
      [BS], [("erase_fermi_surface called by every setter", BS + ":BandStructure.erase_fermi_surface"), ("set_mu_to_doping", BS + ":set_mu_to_doping")],
      [("kf, vf, dkf, dks, dkz, dos_k, dos_epsilon, mass, n, p", "results of the last run", BS)], ["public attributes of BandStructure"]),
    p("C02", "Field vector and energy grid always follow the current settings",
      "After any sequence of assignments of the field amplitude, the field angles, the temperature, the number of energies or the energy cut, the field vector equals B(sin t cos p, sin t sin p, cos t) of the settings in force (also at zero field) and the energy grid equals the one a freshly built object with those settings has.",
      ("histories", "inputs"), "all assignment orders of the settings, all values",
      NOTES_TESTS + "settings are given at construction and almost never reassigned.",
      [CO], [("property setters call BFunc / energy grid update", CO + ":Conductivity.Bamp, Btheta, Bphi, T, N_epsilon, dfdE_cut_percent")],
      [("B_vector", "field vector", CO), ("epsilon_array", "energy grid", CO)], ["Conductivity.B_vector", "Conductivity.epsilon_array"]),
    p("C03", "A transport run does not depend on earlier runs of the same object",
      "Running transport on an object that has already computed other configurations (field on or off, zero or finite temperature, other angles, rates, time steps, energy grids or band parameters) gives exactly the tensors and intermediate results of a freshly built object with the same settings. No entry of a returned tensor is left unset.",
      ("histories", "configurations", "inputs"), "all pairs of (earlier configuration, present configuration) over field x temperature x settings, all values",
      NOTES_TESTS + "each tested object is run once per configuration.",
      [CO], [("runTransport and the *Func methods recompute every result", CO + ":Conductivity.runTransport")],
      [("sigma, alpha, beta, kft, vft, tau_tot, t_o_tau, v_product, *_epsilon", "results of the last run", CO)], ["Conductivity.sigma, alpha, beta"]),
    p("C04", "Each discretization fully replaces the Fermi-surface arrays",
      "Discretizing with any method, resolution, lattice symmetry or energy level after any earlier discretization gives the Fermi-surface arrays and per-slice point counts of an object only ever discretized that way, with every array describing the same points. Slices without contour, at any position, contribute no points and a count of zero, and the counts add up to the number of points.",
      ("histories", "configurations", "inputs"), "all sequences of discretization modes, levels and resolutions; any pattern of empty slices",
      NOTES_TESTS + "each mode runs once, and no tested band has a slice without contour.",
      [BS], [("discretize_fermi_surface, marching_square, marching_cube", BS)],
      [("kf, vf, dkf, dks, dkz, dos_k, number_of_points_per_kz_list", "the discretized surface", BS)], ["BandStructure arrays"]),
    p("C05", "Repeated ADMR runs start afresh and totals are sums over the bands",
      "Running an angle sweep again on the same object gives the same totals, resistivity rows and labels as the first run: nothing accumulates. The total filling is the sum of the fillings of the bands and the total doping is one minus it, for any number of bands.",
      ("histories", "inputs"), "all numbers of bands and all repetitions of the sweep",
      NOTES_TESTS + "no test runs the sweep twice or with two bands.",
      [AD], [("runADMR, totalbandfillingFunc, totalbandDopingFunc", AD)], [("totalfilling, rhozz_array", "sweep results", AD)], ["ADMR.rhozz_array, rzz_array, filling totals"]),
    p("C06", "Objects own private copies of the settings they are given",
      "After construction, or assignment of a parameter dictionary, changing in place any container the caller passed in (band parameters, resolution, scattering models and parameters, initial k limits, fit members, bounds and data dictionaries, the band given to a transport object) does not change the object, changing the object does not change the caller's container, and two objects built with default arguments share no mutable state. The transport objects given to an angle sweep are the one intended exception: they are used in place.",
      ("histories", "inputs"), "all constructor and setter arguments, all later in-place changes on either side",
      NOTES_TESTS + "no test mutates an argument after construction.",
      [BS, CO, AD] + FITS, [("deepcopy in constructors and setters", "__init__ of every public class")], [], ["aliasing between arguments and attributes"]),
    p("C07", "Computing, plotting and exporting leave settings and results untouched",
      "Figures, exports, printed summaries and diagnostic computations (doping, density of states, mass, cyclotron quantities, tensors) change neither the settings of the object nor previously computed results other than the quantity they are asked for, nor any argument the caller passed.",
      ("histories", "configurations"), "all public figure, export and diagnostic methods, in any order after a run",
      NOTES_TESTS + "figures and exports are hardly tested.",
      [BS, CO, AD, SC], [("the fig*, *2file, file* and *_func methods write only their own result", BS)], [], ["public attributes before and after the call"]),
    p("C08", "A finite-temperature run ends with the band back at the Fermi level",
      "After a finite-temperature transport run the band holds the discretization at the Fermi level, exactly as before the run. The data stored for each energy of the grid are those that a separate discretization at that energy gives, each energy's data independent of the others.",
      ("histories", "inputs"), "all energy grids (any length, any position of the Fermi level) and all band parameters",
      NOTES_TESTS + "one temperature and grid is used, and only one tensor component is compared.",
      [CO, BS], [("runTransport at T>0", CO)], [("dos_k_epsilon, dkf_epsilon, ...", "per-energy data", CO)], ["band arrays after runTransport"]),
    p("C09", "Quantities carry their documented units",
      "Every documented quantity of the band structure (points in 1/Angstrom, velocities in m/s, areas in 1/Angstrom^2, densities of states in 1/(J m) and 1/(J m^3), dimensionless mass, filling and doping), of the transport object (field in tesla, energies in meV, times in ps, rates in 1/ps, conductivity in S/m, thermoelectric tensor in A/(K m), thermal tensor in W/(K m)) and of the angle sweep (resistivity in ohm metre, dimensionless ratios) is in its documented unit in every mode, and nowhere are incompatible quantities added, compared or used as the argument of a transcendental function.",
      ("inputs", "configurations"), "all inputs in their documented units; field and temperature on or off; both discretizations; every scattering model",
      NOTES_TESTS + "a wrong power of ten in a quantity they do not print passes.",
      [BS, SC, CO, AD], [("unit comments next to the attributes", CO + ":Conductivity.__init__"), ("units_chambers", CO)], [], ["public attributes and returned values"]),
    p("C10", "The conductivity is Chambers' formula",
      "At zero temperature the conductivity tensor is sigma_ij = 2 e^2/(2 pi)^3 sum over the Fermi-surface elements of dkf / (hbar |v|) times v_i(0) times the sum over the time grid of v_j(t) exp(-P(t)) dt, divided by the number of Brillouin zones, where P(t) is the integral of the scattering rate along the orbit from 0 to t (zero weight at t=0) and the velocities are those at the points of the orbit; without field the time sum is v_j times tau. The time grid runs from zero to eight times the largest scattering time in N_time steps and follows an assignment of N_time; gamma_tot_max and gamma_tot_min are the extreme rates on the Fermi surface.",
      ("inputs", "configurations"), "all parameters, any number of points and time steps, both discretizations, every scattering model, field on and off, any number of Brillouin zones",
      NOTES_TESTS + "a formula that agrees on one component at one parameter set passes.",
      [CO, SC, BS], [("velocity_product, sigma_epsilon, t_o_tau_func, reset_time", CO)], [], ["Conductivity.sigma, t_o_tau, time_array, gamma_tot_max, gamma_tot_min"]),
    p("C11", "Orbits obey the semiclassical equation of motion",
      "The orbit stored in kft starts at the points of the Fermi surface at time zero and is the integral of dk/dt = (e/hbar) v(k) x B of the current field and band over the whole time grid, integrated to the tolerances rtol and atol of the object, each orbit belonging to its own starting point; hence the band energy and the momentum along the field are constants of the motion.",
      ("inputs", "configurations"), "all bands, fields, numbers of points; after any change of field; zero and finite temperature",
      NOTES_TESTS + "the sign and each component of the force are visible only through one conductivity component.",
      [CO], [("movement_equation, crossProductVectorized, solve_movement", CO)], [("kft", "orbits", CO)], ["Conductivity.kft, vft"]),
    p("C13", "The total scattering rate is the sum of the selected rates",
      "The inverse of the total scattering time at any k is the sum, over the selected models, of their documented rates (isotropic gamma_0; gamma_k |cos 2phi|^power; the same times |cos(kz c/2)|^power_z; gamma_k_sin |sin 2phi|^power_sin; gamma_dos_max dos_k/max dos_k) with the parameter values currently set on the object, whatever the order or repetition of models, the shape of the arrays of k, and whether the parameters were set at construction, as attributes or as a whole dictionary.",
      ("inputs", "configurations", "histories"), "every subset and order of models, every parameter value and k, after any assignment of parameters",
      NOTES_TESTS + "two models are run together at one parameter set.",
      [SC], [("tau_tot_func and the functions marked @scattering_method", SC)], [("gamma_tot", "total rate", SC)], ["Scattering.tau_tot_func"]),
    p("C14", "Scattering rates respect the symmetry of the lattice",
      "Every momentum-dependent scattering rate is a function on the Brillouin zone: unchanged when kx or ky is shifted by a reciprocal lattice vector 2 pi/a or 2 pi/b, when kz is shifted by 2 pi/c or 4 pi/c, under the mirrors kx -> -kx, ky -> -ky, kz -> -kz and inversion and, when a = b, under quarter turns and the diagonal mirror. For non-negative parameters it is never negative.",
      ("inputs",), "all k (scalars, lists and grids), all parameters, both lattice symmetries",
      NOTES_TESTS + "rates are only evaluated on one Fermi surface inside the first zone.",
      [SC], [("phi_func folds k into the first zone", SC + ":Scattering.phi_func")], [], ["Scattering.tau_tot_func"]),
    p("C12", "Array shapes are the documented ones in every configuration",
      "In every combination of discretization method, lattice symmetry, energy level, field, temperature and scattering model, each array of the band structure, the transport object and the angle sweep has its documented shape: (3, n) for points and velocities, (n,) for weights, path lengths and densities of states, (3, n, time) for orbits and their velocities, (n, time) or (n,) for rates, (3, 3) for tensors, (phi, theta) for resistivities, with one and the same n for everything indexed by the surface point; the per-slice counts add up to n, one count per slice; results of functions of k have the shape of k, also for bands that do not depend on a component of k.",
      ("inputs", "configurations"), "all numbers of points, time steps, energies and angles; every mode combination; 2D and 3D dispersions",
      NOTES_TESTS + "shapes are never asserted, and n is one accidental number per test.",
      [BS, CO, SC, AD], [("array construction in marching_square / marching_cube", BS), ("solve_movement, velocity_product, runTransport", CO), ("runADMR", AD)], [], ["shapes of public attributes and returned arrays"]),
    p("C15", "Points, areas, path lengths and densities of states describe the sampled surface",
      "marching_square gives, for each kz slice, the contour of the band energy at the requested level in true momenta, resampled to equally spaced points along the path (at least four, spacing at most pi/(a resolution)), for a tetragonal lattice together with its quarter turns in the order of the points; dks is the distance along the path, dkz the distance of slices and dkf their product. marching_cube gives the vertices of the isosurface in true momenta and dkf a third of the areas of the triangles meeting there. vf is the velocity at kf, dos_k = 1/(hbar |v|), dos_epsilon = 2/(2 pi)^3 times the sum of dkf dos_k, and mass hbar/(2 pi) times the slice average of the sum of dks/|v in plane|. The numbers of points per axis are made odd.",
      ("inputs", "configurations"), "all bands, energy levels, k ranges, resolutions, numbers of contours per slice, both symmetries",
      NOTES_TESTS + "orthorhombic cells, other levels, k ranges or several contours per slice are not covered.",
      [BS], [("marching_square, marching_cube, dos_k_func, dos_epsilon_func, mass_func", BS)], [("kf, vf, dkf, dks, dkz, dos_k", "the discretized surface", BS)], ["BandStructure arrays"]),
    p("C16", "Every symbol of the dispersion receives its own parameter",
      "Whatever the order in which parameters are declared or later assigned (one by one, by method or as a whole dictionary in another order), energy_func evaluates the given model with each parameter symbol bound to the current value of that parameter times the energy scale, lattice constants and momenta bound to their own, and velocity_func gives the derivatives of that same dispersion along kx, ky, kz over hbar in m/s, in this order (zeros of the shape of k where the model does not depend on a component). Reading a parameter gives the value assigned. Parallel compilation does not change results.",
      ("inputs", "histories", "configurations"), "all models, parameter names and declaration orders, values, assignment orders and shapes of k",
      NOTES_TESTS + "parameters are always declared in one order and equality is checked at one point.",
      [BS], [("e_3D_v_3D_definition (lambdify, jit)", BS), ("bandParameters, energy_func, velocity_func", BS)], [("_band_params, numeric parameter list", "values handed to the compiled functions", BS)], ["energy_func, velocity_func, item access"]),
    p("C17", "Filling and doping are counted the same way everywhere",
      "The filling is n = 2 (grid points of the zone with energy at most zero)/(grid points)/number_of_bz and the doping p = 1 - n, whether asked through filling, update_filling, doping, per slice, over several bands (1 - sum of n) or inside a run, whose grid is ten times the resolution; slice values are those of their slice and average to the total. set_mu_to_doping, for one or several bands, solves doping(mu) = target over all bands together and leaves the root as chemical potential of every band.",
      ("inputs", "configurations"), "all bands, grids, numbers of zones, k ranges, numbers of bands and targets",
      NOTES_TESTS + "number_of_bz different from one, several bands and the solvers are not covered.",
      [BS], [("filling, doping, doping_per_kz, update_filling, set_mu_to_doping", BS)], [("n, p", "filling and doping", BS)], ["returned values and n, p"]),
    p("C18", "The angle sweep reports the resistivity of each requested field direction",
      "Element (i, j) of rhozz_array is the zz element of the inverse of the sum over all bands of the conductivity tensors computed with the field at phi_i and theta_j, theta running over min, min + step, ... up to max; row i of rzz_array is that row divided by its own value interpolated at the normalisation angle. The transport objects given are used in place with all their other settings, including ones assigned later; showing progress changes nothing.",
      ("inputs", "configurations"), "any number of bands, azimuths and polar angles, any settings of the transport objects",
      NOTES_TESTS + "one sweep of one band is compared at a few angles.",
      [AD], [("runADMR", AD)], [("rhozz_array, rzz_array", "sweep results", AD)], ["ADMR.rhozz_array, rzz_array, Btheta_array"]),
    p("C19", "Interpolated curves use ordered angles paired with their own values",
      "Every interpolation the program performs on measured or simulated curves (loading data for a fit, comparison figures, normalisation of a curve, interpolation between contour points) has its abscissae in increasing order and its ordinates in the same order as the abscissae, whatever the order of the rows of the data file, so that each interpolated value belongs to its own angle.",
      ("inputs",), "all data files (any order of the rows, any number of rows, any range of angles), all normalisation angles, all sweeps",
      NOTES_TESTS + "no test loads a data file.",
      FITS + [AD, BS], [("np.interp on data columns and simulated rows", FM + ":load_Bphi_data"), ("normalisation of the rows", AD + ":runADMR")], [], ["rhozz_data_matrix, rzz_data_matrix, figures"]),
    p("C20", "Each free parameter reaches the simulation, and only where it was declared",
      "When a fit is evaluated at a trial vector, every free parameter (a setting, a lattice constant, a band parameter, the energy scale or a scattering rate; common to all temperatures or of one temperature, of the first or second band) has its trial value in the simulations it was declared for, every other parameter keeps the value of the initial member, and the optimiser gets for each component the bounds of the parameter that component sets. Later evaluations do not depend on earlier ones; after the fit the member and the simulation kept are those of the best vector; with a fixed doping the chemical potential is the one of the trial band.",
      ("inputs", "histories", "configurations"), "all choices of free parameters, levels, temperatures, bands and vectors; any sequence of evaluations",
      NOTES_TESTS + "the fits are not tested at all.",
      FITS, [("compute_fitness / produce_ADMR / compute_diff: distribution of the vector", FM + ":FittingADMR"), ("free_params, bounds", FP)], [("member, params_dict", "current parameters of the fit", FP)], ["the settings of every simulation, bounds, params_dict, member"]),
    p("C21", "The residual is data minus simulation, both normalised the same way",
      "The value (or vector) given to the optimiser is the sum of squares of (or the vector of) data minus simulation over all temperatures, azimuths and polar angles of the fit: normalised data against normalised simulation at the same angle, or resistivity against resistivity in the same unit; the data of each temperature and azimuth are its own, sorted and interpolated at the simulated angles, up to the angle where the data end. Evaluating twice gives the same value.",
      ("inputs", "configurations"), "all data sets (rows, order, temperatures, azimuths, cuts), normalised or not, any normalisation angle, any number of bands",
      NOTES_TESTS + "the fits are not tested at all.",
      FITS, [("compute_fitness, compute_diff, compute_diff2", FM), ("load_Bphi_data, load_and_interp_data", FP)], [("rhozz_data_matrix, rzz_data_matrix", "data of the fit", FP)], ["value returned to the optimiser"]),
    p("C22", "The exported sweep file holds the results, with the right labels",
      "The data file exported after an angle sweep has one row per polar angle and one labelled column per exported quantity (the polar angle, the resistivity at every azimuth of the sweep, the field, the resolution, the energy scale and every band parameter), header labels and columns agreeing in number and order, and each column holds the current value of the quantity its label names, also after another sweep or after parameters were assigned. The header is a comment line, so the file can be read back.",
      ("inputs", "histories", "configurations"), "all numbers of bands, azimuths (in any order) and polar angles, all sets of band parameters, after any change of settings followed by a sweep",
      NOTES_TESTS + "no exported file is read back.",
      [AD], [("fileADMR: matrix and header", AD + ":ADMR.fileADMR")], [], ["matrix and header handed to savetxt"]),
    p("C23", "Files are written where and when they are asked for",
      "Every figure, table or fitted member that is written goes exactly into the folder and under the file name requested (with the extension of its content when no name is given; in the working folder when no folder is given, never at the root of the file system). Nothing is written when saving was not requested.",
      ("inputs", "configurations"), "all methods with a folder or filename argument (sweep file and figure, fit members and comparison figures), with and without each argument, folders of any depth",
      NOTES_TESTS + "the tests save nothing.",
      [AD] + FITS, [("folder and filename arguments", AD + ":fileADMR, figADMR"), ("save_member_to_json, fig_compare", FM)], [], ["paths given to open, savetxt, PdfPages"]),
    p("C26", "A saved member is restored unchanged",
      "A member written by a fit can be serialised to JSON, contains the best parameters of the fit, is found again under the name it was saved with, and after loading gives the same settings (values, and temperatures as numbers) and therefore the same simulation as the member that was saved.",
      ("inputs", "histories"), "all members and free parameters, all fit classes",
      NOTES_TESTS + "no member is saved.",
      FITS, [("save_member_to_json, load_member_from_json", FP)], [("member, member_dict, params_dict", "parameters saved", FP)], ["content of the JSON file; the member after loading"]),
    p("C27", "Parallel fits count every evaluation and end their workers",
      "In the parallel fits the counter shared between processes is read and changed only while its lock is held and grows by exactly one per evaluation; locks are released on every path; for every requested number of processors and percentage at least one worker is started, the optimiser is given the workers, and they are ended whether the fit ends normally or with an exception.",
      ("schedules", "configurations"), "all interleavings of the workers, all numbers of processors and percentages, normal end or exception",
      NOTES_TESTS + "the fits are not tested, and a lost update needs a particular interleaving.",
      [FP, FM], [("compute_diff with num_member lock", FP), ("fit_admr_parallel: pool", FM)], [("num_member", "shared counter", FP)], ["counter value, pool life cycle"]),
    p("C24", "Every public operation runs to completion in every supported configuration",
      "Importing the package and its example scripts, building objects, and calling any public method on an object whose required inputs were given never fails because of a name, attribute, argument, key, function or file of the code's own that is missing, of the wrong type, unset on some path or not provided by the library it is imported from. This holds for both discretizations, tetragonal and orthorhombic lattices, bands without dispersion along some direction, zero and finite temperature and field, any scattering models, one or several bands, repeated calls, and all four fit classes (with or without normalised data, fixed doping, saved files).",
      ("inputs", "histories", "configurations"), "all paths of all functions, all supported configurations and orders of calls",
      NOTES_TESTS + "most functions and branches are never executed by the tests.",
      ["cuprates_transport"], [("all modules", BS + ", " + CO + ", " + AD + ", " + FM + ", " + FP + ", " + FSM + ", " + FSO)], [], ["exceptions and exits"]),
    p("C28", "Results are deterministic and independent of other objects",
      "The results of a band structure, a transport object, an angle sweep and one evaluation of a fit are functions of its own settings only: they are the same when the object is alone in the process and when other objects with any other settings (model, parameters, lattice, grid, field, temperature, rates, data) were built or run before it or in between, and the same in every process. They do not depend on the time, on random numbers, on the environment or on the order of object identities (the random search of a global optimiser is exempt).",
      ("histories", "configurations"), "all pairs of objects in one process, all orders of building and running",
      NOTES_TESTS + "each test builds its own objects, which differ little from each other.",
      [BS, CO, AD, SC] + FITS, [("all classes; module globals, class attributes, caches", "cuprates_transport")], [("module-level and class-level values", "state shared by all objects", "cuprates_transport")], ["results of one object with and without others"]),
    p("C29", "Settings read back and act the same however they are given",
      "Every setting of a band structure (lattice constants, energy scale, band parameters, resolution, k limits, number of zones, name, discretization method), of a transport object (field, angles, temperature, time steps, energy grid, rates, models, tolerances) and the normalisation angle of a sweep reads back the value given at construction or assigned last, and assigning it, before the first run or after a run, gives at the next run the results of an object built with that value.",
      ("inputs", "histories", "configurations"), "all settings and values, assigned before or after a run, both discretizations, with and without field, zero and finite temperature",
      NOTES_TESTS + "settings are only given at construction.",
      [BS, CO, AD], [("__init__ and setters", BS + ", " + CO + ", " + AD)], [("settings of the three classes", "values given by the user", BS + ", " + CO + ", " + AD)], ["settings read back; results after assignment"]),
    p("C30", "Finite-temperature tensors are the thermally weighted sums over the energy grid",
      "At T > 0 the conductivity, thermoelectric and thermal tensors are the sums over the N_epsilon energies of the symmetric grid of dE (-df/dE) times the energy-resolved conductivity times 1, E/(-e T) and E^2/(e^2 T) (E in joule), the energy-resolved conductivity using the points, areas, densities of states, orbits and rates of that energy; the grid ends where -df/dE has fallen to the requested fraction of its maximum, dfdE is the derivative of the Fermi function and energyCutOff its inverse. At T = 0 the thermoelectric and thermal tensors vanish, also after a finite-temperature run.",
      ("inputs", "configurations"), "all temperatures, cuts, numbers of energies, scattering models, fields, both discretizations",
      NOTES_TESTS + "one temperature and one component are compared; alpha and beta are never looked at.",
      [CO], [("runTransport at T>0, dfdE, energyCutOff, integrand_coeff", CO)], [("sigma_epsilon, epsilon_array", "energy-resolved data", CO)], ["Conductivity.sigma, alpha, beta, epsilon_array"]),
]

TECH = {
    "C01": "abstract interpretation: typestate of computed results (dependence of every result on replaced parameter values)",
    "C02": "abstract interpretation: typestate of derived settings over all setter orders, value-numbered terms",
    "C03": "abstract interpretation: history-independence by term equality of a reused and a fresh object",
    "C04": "abstract interpretation: strong-update analysis of the discretization, term and shape equality",
    "C05": "abstract interpretation: accumulator analysis with uninterpreted transport summaries",
    "C06": "abstract interpretation: ownership / alias analysis of containers by object identity",
    "C07": "abstract interpretation: effect (purity) analysis, terms before and after each call",
    "C08": "abstract interpretation: pairing and strong-update analysis of the energy loop",
    "C09": "abstract interpretation: unit (physical dimension and prefix) inference",
    "C10": "abstract interpretation: normal-form conformity with an independently written reference formula",
    "C11": "abstract interpretation: normal-form conformity of the integrator's right-hand side, state and options",
    "C12": "abstract interpretation: symbolic array-shape inference",
    "C13": "abstract interpretation: normal-form conformity (sum of rates) with alias-sensitive parameter flow",
    "C14": "abstract interpretation: normal-form symmetry and sign analysis of the rates",
    "C15": "abstract interpretation: normal-form conformity of the discretization with a reference reconstruction",
    "C16": "abstract interpretation: binding analysis of generated functions (symbol -> value reaching it)",
    "C17": "abstract interpretation: normal-form conformity of the counting formulas over all public routes",
    "C18": "abstract interpretation: normal-form conformity with uninterpreted transport summaries",
    "C19": "abstract interpretation: order/permutation dataflow into every interpolation",
    "C20": "abstract interpretation: value flow from trial vector to simulation settings, transport uninterpreted",
    "C21": "abstract interpretation: normal-form conformity of the objective handed to the optimiser",
    "C22": "abstract interpretation: label-column correspondence on the file-write event",
    "C23": "abstract interpretation: effect analysis of output paths",
    "C24": "custom lints over the syntax tree (names, definite assignment, attributes, call signatures, imports) and abstract interpretation for errors of the code's own",
    "C26": "abstract interpretation: type and round-trip analysis of serialised members",
    "C27": "abstract interpretation: lock-set and resource (typestate) analysis of shared counters and pools",
    "C28": "abstract interpretation: non-interference and nondeterminism (dependence) analysis across objects",
    "C29": "abstract interpretation: assignment equivalence, read-back value flow of settings",
    "C30": "abstract interpretation: normal-form conformity of the thermal integration",
}
