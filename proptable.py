NOTE = ("Sound for the modelled Python/numpy subset under real arithmetic; an obligation the analysis cannot decide is reported as "
        "undecided in the evidence, never as a violation. Trusts the library models in sa/npmodel.py.")
AI = "abstract interpretation with gated value numbering (joins, loop phis, invariants)"

prop("C01", "Components sum back to the input",
     "For every finite input signal or image and every option setting, the rows returned by a decomposition (EMD, CEEMDAN, EMD2D, BEMD, "
     "the MATLAB-style EMD and the numba EMD) add up, sample by sample, to the input up to floating-point rounding. A remainder may be "
     "left out of the returned rows only when it is zero to within 1e-8.",
     ["inputs", "configurations"], "every signal, time axis, dtype, option value and number of extracted components",
     "The tests reconstruct a handful of sinusoids with default options; they never combine options, integer signals, image variants or the numba and MATLAB variants.",
     ["PyEMD/EMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py"],
     [("residue is the input minus the extracted components and is appended unless zero", "PyEMD/EMD.py:EMD.emd"),
      ("last component is the remainder", "PyEMD/CEEMDAN.py:CEEMDAN.ceemdan"),
      ("remainder appended", "PyEMD/EMD2d.py:EMD2D.emd, PyEMD/BEMD.py:BEMD.bemd, PyEMD/EMD_matlab.py:EMD.emd, PyEMD/experimental/jitemd.py:emd")],
     AI, NOTE)

prop("C03", "Inputs are never modified",
     "No public operation of the package ever changes the contents of an array, list or dictionary passed to it by the caller.",
     ["inputs", "configurations"], "every public function and method, every argument, every option",
     "A test would have to compare every argument before and after every call on every path; the existing tests do so for none.",
     ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/EMD_matlab.py", "PyEMD/compact.py",
      "PyEMD/checks.py", "PyEMD/splines.py", "PyEMD/utils.py", "PyEMD/visualisation.py", "PyEMD/experimental/jitemd.py"],
     [("working copies of the signal are made before in-place arithmetic", "PyEMD/EMD.py:EMD.emd"),
      ("tridiagonal solver copies its diagonals", "PyEMD/compact.py:TDMAsolver")],
     "alias and effect analysis (may-share memory of every in-place effect)", NOTE)

prop("C08", "Worker pools are released on every exit",
     "Every pool of worker processes opened during an ensemble decomposition has been released by the time the call ends, whether it "
     "returns normally or a trial, the noise generation or the inner decomposition raises.",
     ["fault_sequences", "configurations"], "every exit of a parallel decomposition, normal or exceptional, at any trial",
     "The tests only run parallel decompositions that succeed.",
     ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("context-managed or finally-released pools", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN._decompose_noise, CEEMDAN._eemd")],
     "typestate analysis over normal and exceptional exits", NOTE)

ALLF = ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py"]

prop("C02", "Accessors agree with the decomposition just run",
     "After a decomposition, `get_imfs_and_residue()` of EMD, EEMD and CEEMDAN (and `get_imfs_and_trend()` of EMD) hand out components and a "
     "remainder that add up, sample by sample, to the signal just analysed, up to rounding; and the components are exactly the rows the "
     "decomposition returned (for EMD: the returned rows are the components followed by the residue, or the components alone when the "
     "residue is zero to within 1e-8). The same holds for the `imfs` and `residue` stored by JitEMD.",
     ["inputs", "configurations", "histories"], "every signal, option, time axis, serial or parallel ensemble, and the state left by the run",
     "The tests look at the accessors on two signals with default options.",
     ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/experimental/jitemd.py"],
     [("stored components and residue", "PyEMD/EMD.py:EMD.emd, get_imfs_and_residue, get_imfs_and_trend"),
      ("stored ensemble mean and residue", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN.ceemdan")],
     AI, NOTE)

prop("C04", "Results are private: no sharing with inputs, never rewritten",
     "The arrays a decomposition returns, and the components and residue it keeps for its accessors, share no memory with the caller's input "
     "arrays, and are not held in module, class or default-argument storage. No later call of any public operation rewrites in place an array, "
     "list or dictionary that an earlier call returned or left behind on the object.",
     ["inputs", "histories"], "every decomposition, accessor and numerical helper; every sequence of calls on one object or several",
     "A test would have to mutate every input after every call and re-run on the same object while holding earlier results; none does.",
     ALLF + ["PyEMD/compact.py", "PyEMD/splines.py", "PyEMD/utils.py"],
     [("results are stacked into fresh arrays, stored components are copies", "PyEMD/EMD.py:EMD.emd"),
      ("ensemble accumulators are allocated per call", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN._eemd")],
     "alias and effect analysis with generalised history state", NOTE)

prop("C05", "Results do not depend on earlier calls",
     "What a decomposition or helper function returns depends only on its arguments, the object's options and (for the ensemble methods) the "
     "state of its noise generator. Nothing an earlier call left behind - stored components, cached values, module or class variables, "
     "mutable defaults - influences a later result.",
     ["histories", "configurations"], "every public operation after every history of public operations on the same or other objects",
     "The tests build a fresh object for nearly every call.",
     ALLF + ["PyEMD/checks.py", "PyEMD/compact.py", "PyEMD/splines.py", "PyEMD/utils.py"],
     [("all working state is initialised at the start of a run", "PyEMD/EMD.py:EMD.emd, PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN.ceemdan"),
      ("ensemble collection reset per run", "PyEMD/EEMD.py:EEMD.eemd (_all_imfs)")],
     "dependence (taint) analysis with generalised history state", NOTE)

prop("C06", "Seeded ensembles are reproducible",
     "All randomness in EEMD and CEEMDAN comes from a generator private to the instance: no global generator, fresh entropy, clock, process "
     "identity or order in which workers finish flows into a result. `noise_seed(seed)` puts the generator in a state that is a function of the "
     "seed alone, for every seed including 0 and whatever was drawn before; CEEMDAN's `seed` option does the same at construction. Every other "
     "operation of the package is deterministic.",
     ["inputs", "schedules", "histories"], "every seed, earlier use of the object, worker schedule and option",
     "The seed tests compare two serial runs with one seed each; scheduling and global state are out of their reach.",
     ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("instance generator", "PyEMD/EEMD.py:EEMD.__init__, PyEMD/CEEMDAN.py:CEEMDAN.__init__"),
      ("seeding", "PyEMD/EEMD.py:EEMD.noise_seed, PyEMD/CEEMDAN.py:CEEMDAN.noise_seed"),
      ("ordered collection of worker results", "PyEMD/CEEMDAN.py:CEEMDAN._eemd")],
     "taint analysis of nondeterminism sources and value numbering of the generator state", NOTE)

prop("C07", "Each trial gets its own noise; parallel equals serial",
     "In every ensemble decomposition each trial perturbs the signal with a different noise realisation, in serial and in parallel mode, for any "
     "number of workers. With the same generator state, running in parallel yields the same components as running serially.",
     ["inputs", "schedules", "configurations"], "every number of trials, workers, noise kind and option, serial and parallel",
     "The tests never compare trials with each other nor a parallel with a serial run.",
     ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("noise drawn in the parent, one realisation per trial", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN.ceemdan (all_noises)"),
      ("trial evaluation", "PyEMD/EEMD.py:EEMD._trial_update, PyEMD/CEEMDAN.py:CEEMDAN._trial_update, CEEMDAN._decompose_noise")],
     "value numbering of trial inputs; cross-run equality by partition refinement", NOTE)

prop("C16", "Call operator and progress display change nothing",
     "Calling a decomposition object (EMD, EEMD, CEEMDAN, EMD2D, BEMD, JitEMD) is the same as calling its named method with the same arguments: "
     "every argument is passed on and the method's value returned, and omitted arguments mean the same. Turning the progress display of EEMD or "
     "CEEMDAN on never changes the result.",
     ["inputs", "configurations"], "every argument combination, serial and parallel, progress on and off",
     "The tests use the call operator with few arguments and never compare progress on with off.",
     ALLF,
     [("call operators", "__call__ of each class"), ("progress wrappers", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN.ceemdan, CEEMDAN._eemd")],
     "value numbering with opaque callee; cross-run equality by partition refinement", NOTE)

prop("C17", "Options hold what was given, or their documented default, and stay so",
     "An option passed to EMD, EEMD, CEEMDAN or JitEMD is held exactly as given (0, False and the smallest and largest values included), an omitted "
     "one holds its documented default (also in the EMD an ensemble method makes for itself), and no operation changes an option of the "
     "object or of its inner EMD: after any call the thresholds, `FIXE`, `FIXE_H`, `MAX_ITERATION`, `nbsym`, spline and detection kinds, noise and "
     "trial settings are what they were before. The same holds for the attributes that configure EMD2D, BEMD and the MATLAB-style EMD.",
     ["inputs", "configurations", "histories"], "every option, every value, every public operation, serial and parallel",
     "Tests construct objects with a few settings and do not look at the options after a decomposition.",
     ALLF,
     [("constructors", "PyEMD/EMD.py:EMD.__init__, PyEMD/EEMD.py:EEMD.__init__, PyEMD/CEEMDAN.py:CEEMDAN.__init__, PyEMD/experimental/jitemd.py:JitEMD.__init__"),
      ("operations", "every public method of these classes, EMD2D, BEMD and EMD_matlab.EMD")],
     "abstract interpretation of constructors; effect analysis of option attributes at every normal exit", NOTE)

prop("C22", "No side effects on process-wide state",
     "Importing the package and using any of its operations leaves process-wide state alone: the global numpy and `random` generators, numpy's "
     "error state, warning filters, logging configuration, environment variables, the working directory, plotting configuration, files.",
     ["configurations", "histories"], "every public operation on every path, and import of every module",
     "Tests would have to snapshot all process-wide state around every call.",
     ALLF + ["PyEMD/checks.py", "PyEMD/compact.py", "PyEMD/splines.py", "PyEMD/utils.py", "PyEMD/visualisation.py", "PyEMD/__init__.py"],
     [("instance generators instead of np.random", "PyEMD/EEMD.py:EEMD.generate_noise, PyEMD/CEEMDAN.py:CEEMDAN.generate_noise"),
      ("module loggers", "class attribute `logger`")],
     "effect analysis over the call graph and import-time code", NOTE)

prop("C11", "Each option value selects its method; unknown ones are refused",
     "`spline_kind`, `extrema_detection` and `noise_kind` select exactly the documented interpolator, extrema detector and noise distribution, the "
     "interpolator passing through the given extrema, for EMD, the numba EMD and the ensemble methods; any other value is refused with the "
     "documented exception instead of silently falling back. Options given to EEMD and CEEMDAN for the inner EMD (`spline_kind`, `nbsym`, "
     "`extrema_detection`, `FIXE`, `FIXE_H`, `MAX_ITERATION`, thresholds) reach it, and a supplied `ext_EMD` is the object used.",
     ["inputs", "configurations"], "every documented option value, values outside the documented set, every inner option",
     "The tests check that each spline kind runs, not which interpolator was built, and try one unknown name.",
     ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/splines.py", "PyEMD/experimental/jitemd.py"],
     [("dispatch", "PyEMD/EMD.py:EMD.spline_points, EMD.find_extrema, EMD.prepare_points; PyEMD/EEMD.py:EEMD.generate_noise; PyEMD/CEEMDAN.py:CEEMDAN.generate_noise"),
      ("forwarding", "PyEMD/EEMD.py:EEMD.__init__, PyEMD/CEEMDAN.py:CEEMDAN.__init__")],
     "abstract interpretation of the option dispatch, exits and constructed terms", NOTE)

prop("C12", "Invalid requests are refused, never answered",
     "A request the documentation rules out ends in its documented exception and never returns a value: a time axis shorter or longer than the "
     "signal (EMD, the numba EMD, the MATLAB-style EMD); equal neighbouring times under parabolic extrema detection; reading components, residue or trend (EMD, EEMD, CEEMDAN) before anything "
     "was decomposed; `whitenoise_check` with an alpha outside (0, 1), an unknown test, a rescaling IMF outside 1..n or components that are "
     "not an array; plotting with nothing to plot or without the requested residue; an instantaneous-frequency alpha outside (-0.5, 0.5).",
     ["inputs", "histories"], "every signal, option and object state for which the request is invalid",
     "The tests try one example of some of these requests; the boundary values and option combinations are not covered.",
     ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py", "PyEMD/checks.py", "PyEMD/visualisation.py"],
     [("length and time checks", "PyEMD/EMD.py:EMD.emd"), ("accessors", "get_imfs_and_residue, get_imfs_and_trend"),
      ("argument checks", "PyEMD/checks.py:whitenoise_check; PyEMD/visualisation.py:Visualisation")],
     "abstract interpretation under the invalidating assumption: no normal exit is reachable", NOTE)

prop("C32", "Each trial decomposes the signal plus the documented noise",
     "An ensemble run performs exactly `trials` trials, each on the caller's time axis with the caller's limit. An EEMD trial decomposes the "
     "signal plus noise of scale `noise_width` times the signal's range; CEEMDAN's trials decompose the signal (then the current remainder) "
     "plus the documented multiple (`epsilon`, `noise_scale`, the remainder's standard deviation, `beta_progress`) of the matching component of that "
     "trial's noise. `normal` noise is zero-mean Gaussian with the requested standard deviation, `uniform` noise symmetric about zero with the "
     "requested full width.",
     ["inputs", "configurations"], "every signal, time axis, noise kind, number of trials and noise option, serial and parallel",
     "The tests cannot see the noisy signals; they check seeds and shapes of the result.",
     ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("noise generation", "PyEMD/EEMD.py:EEMD.generate_noise, PyEMD/CEEMDAN.py:CEEMDAN.generate_noise"),
      ("noisy signals", "PyEMD/EEMD.py:EEMD.eemd, EEMD._trial_update; PyEMD/CEEMDAN.py:CEEMDAN.ceemdan, CEEMDAN._eemd, CEEMDAN._trial_update")],
     "value numbering of the signals handed to the inner decomposition, compared as polynomials", NOTE)

prop("C15", "Ensemble components are statistics over all trials",
     "Each component EEMD returns is the pointwise mean, over all trials that produced a component of that order, of that component; every "
     "component of every one of the `trials` trials enters under its own order, and with `separate_trends` the mean of all trial trends comes last. "
     "`ensemble_mean`, `ensemble_std`, `ensemble_count` and `all_imfs` describe exactly those collected components. Each CEEMDAN component is the "
     "current remainder minus the mean over all trials of the trial's local mean, the first being the mean of the trials' first components.",
     ["inputs", "configurations"], "every signal, number of trials, trials of different depth, serial and parallel, separate_trends on or off",
     "The tests compare the mean with the accessor on one run; trials of different depth and dropped trials are not exercised.",
     ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("collection and statistics", "PyEMD/EEMD.py:EEMD.eemd, ensemble_mean, ensemble_std, ensemble_count, all_imfs"),
      ("recurrence", "PyEMD/CEEMDAN.py:CEEMDAN.ceemdan, CEEMDAN._eemd")],
     "value numbering of the ensemble accumulator through the trial and component loops", NOTE)

prop("C09", "MAX_ITERATION caps sifting; FIXE and FIXE_H stop it exactly as documented",
     "For EMD, EMD2D, BEMD, the MATLAB-style EMD and the numba EMD: no component is ever sifted more than MAX_ITERATION times, and a larger MAX_ITERATION changes nothing "
     "for components that stop earlier. With FIXE=f>0 each component is sifted exactly f times (unless it runs out of extrema or reaches the cap) whatever the "
     "adaptive criteria say. With FIXE=0 and FIXE_H=h>0 sifting stops exactly when h consecutive rounds (the first round aside) met the "
     "extrema/zero-crossings condition: a round that fails it starts the count again, and adaptive thresholds play no role.",
     ["inputs", "configurations"], "every signal and every FIXE, FIXE_H, MAX_ITERATION",
     "The tests run a few values on one or two signals; a counter that is off only for one combination, or is not reset, needs a signal that meets the condition intermittently.",
     ["PyEMD/EMD.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py"],
     [("sifting loop", "PyEMD/EMD.py:EMD.emd"), ("sifting loop", "PyEMD/EMD2d.py:EMD2D.emd"), ("sifting loop", "PyEMD/BEMD.py:BEMD.bemd"), ("sifting loop", "PyEMD/EMD_matlab.py:EMD.emd"),
      ("sifting loop", "PyEMD/experimental/jitemd.py:emd")],
     "transition relation of the sifting loop over its counters and options, data-dependent conditions left free", NOTE)

prop("C10", "max_imf limits the components exactly and leaves the first ones unchanged",
     "With max_imf=m>0 (max_imfs for CEEMDAN's internal loop) a decomposition extracts at most m components, and stops early for no other reason than without the limit; "
     "with max_imf=-1 there is no limit. The first components do not depend on max_imf: asking for more components never changes those already "
     "extracted. Holds for EMD, CEEMDAN, EMD2D, BEMD and the numba EMD.",
     ["inputs", "configurations"], "every signal and every max_imf",
     "Tests check max_imf for one or two values on one signal.",
     ["PyEMD/EMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/experimental/jitemd.py"],
     [("extraction loop", "PyEMD/EMD.py:EMD.emd"), ("stage loop", "PyEMD/CEEMDAN.py:CEEMDAN.ceemdan"), ("extraction loop", "PyEMD/EMD2d.py:EMD2D.emd"),
      ("extraction loop", "PyEMD/BEMD.py:BEMD.bemd"), ("extraction loop", "PyEMD/experimental/jitemd.py:emd")],
     "transition relation of the extraction loop, and dependency of loop state on max_imf", NOTE)

prop("C13", "Sifting follows the EMD recurrence and stops only as documented",
     "Each component is sifted from the signal minus the sum of all components extracted before it. Every sifting round subtracts the mean of the "
     "upper and the lower envelope of the current proto-IMF (computed on the analysed time axis with the chosen spline) and nothing else. Without FIXE/FIXE_H sifting "
     "of a component ends exactly when the IMF criterion holds for the new and the previous proto-IMF (in 1-D together with the number of extrema "
     "and zero crossings of the new proto-IMF differing by at most one), or when too few extrema remain; the FIXE_H count uses the same condition. What is appended is "
     "the sifted proto-IMF, and the decomposition ends whenever the end condition holds for the analysed signal and all components so far. "
     "Holds for EMD, the numba EMD, EMD2D and BEMD.",
     ["inputs", "configurations"], "every signal or image, every round and component, every option value",
     "The tests decompose a few signals and look at component counts; a wrong term that only matters from the second round or for some counts passes them.",
     ["PyEMD/EMD.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/experimental/jitemd.py"],
     [("sifting loop", "PyEMD/EMD.py:EMD.emd"), ("sifting loop", "PyEMD/EMD2d.py:EMD2D.emd"), ("sifting loop", "PyEMD/BEMD.py:BEMD.bemd"),
      ("sifting loop", "PyEMD/experimental/jitemd.py:emd")],
     "recurrence and exit condition of the sifting loop by value numbering with the public helpers opaque", NOTE)

prop("C29", "Stopping criteria compute the documented formulas with their own thresholds",
     "EMD.check_imf (and the numba version) accepts a proto-IMF exactly when no maximum is negative, no minimum positive, its energy is at least 1e-10, and at "
     "least one of: sum (new-old)^2 / range(old) < svar_thr, sum ((new-old)/new)^2 < std_thr, sum (new-old)^2 / sum old^2 < energy_ratio_thr. "
     "end_condition ends a decomposition exactly when the remainder's range is below range_thr or its L1 norm below total_power_thr (CEEMDAN: also when max_imf "
     "is reached or the remainder yields a single component; 2-D: when the components add up to the image). The 2-D check_proto_imf accepts exactly "
     "when the envelope mean deviates from its average by less than mean_thr everywhere, the last round changed little, the mean magnitude is below mean_thr or the mean square "
     "below mse_thr. The MATLAB-style EMD stops sifting exactly when the ratio |envelope mean| / (half the envelope distance) exceeds stop1 on at most the fraction stop3 of the "
     "samples, exceeds stop2 nowhere, and there are more than two extrema. Each threshold acts on its own quantity only.",
     ["inputs", "configurations"], "every argument array and threshold value",
     "The tests call the criteria on a handful of arrays; a swapped threshold or a criterion that ignores its threshold passes.",
     ["PyEMD/EMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py", "PyEMD/experimental/jitemd.py", "PyEMD/EMD_matlab.py"],
     [("criteria", "PyEMD/EMD.py:EMD.check_imf, EMD.end_condition"), ("criteria", "PyEMD/EMD_matlab.py:EMD.stop_sifting"), ("criteria", "PyEMD/CEEMDAN.py:CEEMDAN.end_condition"),
      ("criteria", "PyEMD/EMD2d.py:EMD2D.check_proto_imf, end_condition"), ("criteria", "PyEMD/BEMD.py:BEMD.check_proto_imf, end_condition"),
      ("criteria", "PyEMD/experimental/jitemd.py:check_imf, end_condition")],
     "truth-table comparison of the extracted Boolean with the documented formula over canonical comparisons", NOTE)

prop("C20", "Extrema and zero crossings are found exactly, flat stretches included",
     "Extrema detection (EMD.find_extrema with either detector, the numba detectors, EMD_matlab.findExtrema) reports exactly the extrema of the signal. "
     "'simple': an inner sample above (below) both neighbours is a maximum (minimum); a flat stretch the signal rises into and falls out of is one maximum at its middle (falls "
     "into and rises out of: one minimum); stretches touching the first or last sample, and everything else, are not reported; extrema come in order of time, each with its own time (sample index in the "
     "numba version) and value. 'parabol': after dropping samples equal to both neighbours, the vertex of the parabola through three consecutive samples not on a line is reported exactly "
     "when it lies at most half-way to the neighbours (half-way points once), as maximum or minimum by the sign of the curvature, with the parabola's value there. "
     "The zero-crossing indices are the sample before each sign change plus each stretch of zeros once, at its middle.",
     ["inputs"], "every signal of every length, with any pattern of slopes, flat stretches and zeros",
     "The tests check a few short signals without flat stretches at the ends; the pattern at fault may be a stretch at sample 1 or at the last sample, or a particular mix of stretches.",
     ["PyEMD/EMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py"],
     [("simple detector", "PyEMD/EMD.py:EMD._find_extrema_simple"), ("parabolic detector", "PyEMD/EMD.py:EMD._find_extrema_parabol, EMD._not_duplicate"),
      ("MATLAB-style detector", "PyEMD/EMD_matlab.py:EMD.findExtrema"), ("numba detectors", "PyEMD/experimental/jitemd.py:_find_extrema_simple, _find_extrema_parabol")],
     "abstract interpretation of the extracted index sets over all kinds of samples (sign patterns, flat stretches); rational-function identities for the parabola", NOTE)

prop("C27", "Envelopes interpolate the extended extrema",
     "The upper (lower) envelope of a signal is the interpolant of the requested kind through its maxima (minima) extended over the edges, evaluated at the signal's times; the two are never "
     "exchanged, and no envelopes are built exactly when there are fewer than three extrema in total. Kinds: akima, cubic, pchip, cubic_hermite (slopes from the gradient of values over times), "
     "linear/slinear, quadratic, in any letter case. For three points 'cubic' is the natural cubic spline: it passes through the points, has continuous first and second derivatives at the middle point and zero "
     "second derivative at the ends, whatever the spacing; more points use the general interpolant. In two dimensions the surface (bicubic smoothing spline in EMD2D, cubic radial basis function in BEMD) is built from the extrema's coordinates and the image values at "
     "those pixels, evaluated at every pixel in the same coordinates, whatever the image's shape; EMD2D does so on a 3x3 grid of mirror images with the image itself in the centre.",
     ["inputs", "configurations"], "every set of extrema with increasing times, every spacing, every spline kind, every image shape",
     "The tests evaluate a few splines on evenly spaced points and square images; errors that vanish for even spacing, for square images or for symmetric images pass.",
     ["PyEMD/splines.py", "PyEMD/EMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py"],
     [("three-point spline", "PyEMD/splines.py:cubic_spline_3pts"), ("three-point spline", "PyEMD/EMD_matlab.py:EMD.cubicSpline_3points"), ("three-point spline", "PyEMD/experimental/jitemd.py:cubic_spline_3pts"),
      ("interpolation", "PyEMD/EMD.py:EMD.spline_points, EMD.extract_max_min_spline"), ("interpolation", "PyEMD/EMD_matlab.py:EMD.splinePoints, EMD.extractMaxMinSpline"),
      ("surfaces", "PyEMD/EMD2d.py:EMD2D.extract_max_min_spline, EMD2D.prepare_image"), ("surfaces", "PyEMD/BEMD.py:BEMD.extract_max_min_spline, BEMD.find_extrema_positions")],
     "symbolic extraction of the interpolant; rational-function identities for the three-point spline; term comparison of data, evaluation points and call chain", NOTE)

prop("C21", "Extrema are mirrored correctly over both edges of the signal",
     "Before envelopes are built, the lists of maxima and minima are extended over both edges (EMD.prepare_points for either detector, the numba prepare_points, EMD_matlab.preparePoints). "
     "The given extrema stay unchanged, in order, in the middle of the extended list, maxima with maxima and minima with minima. Every added point is an extremum of the same kind (or the edge sample itself) mirrored "
     "about one centre common to both kinds, and carries the value of the point it mirrors. The centre is the outermost extremum when the edge sample lies inside the value of the neighbouring "
     "extremum and the mirrored points reach the edge (points of both kinds; parabolic detection: already the nearest one of the other kind); otherwise it is the edge sample. The nearest nbsym points are mirrored on each side (all of them when there are fewer). "
     "The extended times strictly increase and cover the whole signal for both kinds, and no arrangement of three or more alternating extrema makes the extension fail.",
     ["inputs", "configurations"], "every arrangement of at least three alternating extrema, every signal value, every nbsym >= 1, both edges",
     "The tests extend a few signals with the default nbsym; the fallback paths for short mirrored lists, large nbsym and the right-hand edge depend on arrangements none of them has.",
     ["PyEMD/EMD.py", "PyEMD/EMD_matlab.py", "PyEMD/experimental/jitemd.py"],
     [("mirroring", "PyEMD/EMD.py:EMD.prepare_points, EMD._prepare_points_simple, EMD._prepare_points_parabol"), ("mirroring", "PyEMD/experimental/jitemd.py:prepare_points, _prepare_points_simple, _prepare_points_parabol"),
      ("mirroring", "PyEMD/EMD_matlab.py:EMD.preparePoints")],
     "abstract interpretation of the extracted extension terms over arrangements of alternating extrema with unconstrained values; every case judged by the mirroring rules",
     "Arrangements of up to 7 extrema, several spacings and edge distances, nbsym 1-3 (thorough 1-5); 'simple' on sample-index times as used by the decompositions. " + NOTE)

prop("C19", "The white-noise test gives the verdicts of Wu and Huang's formulas",
     "whitenoise_check returns one verdict (0 or 1) for every component, numbered from 1, or None exactly for empty input or input containing NaN. With N samples, density = sum(x^2)/N, period = "
     "N / number of non-negative peaks (N when there are none) and z the two-sided normal quantile of alpha: 'apriori' marks a component significant exactly when |ln density + ln period| > "
     "z sqrt(2/N) sqrt(period). 'aposteriori' first rescales all densities by one factor that puts the component number rescaling_imf on the upper limit -ln period + z sqrt(2/N) sqrt(period), then marks "
     "those above the upper limit; so the verdicts do not change when all components are multiplied by one non-zero factor. The public helpers (mean_period, energy, "
     "significance_apriori, significance_aposteriori) compute these quantities.",
     ["inputs", "configurations"], "every set of components with non-zero energy, every alpha in (0, 1), every reference component",
     "The tests look at the types of the results only.",
     ["PyEMD/checks.py"],
     [("formulas", "PyEMD/checks.py:whitenoise_check, mean_period, energy, significance_apriori, significance_aposteriori")],
     "value numbering of the verdict, normal form for logarithms, exponentials and roots, compared with the published formula", NOTE)

prop("C18", "Compact filter, compact derivative and tridiagonal solver are exact",
     "TDMAsolver returns the solution of the tridiagonal system given by its three diagonals (the first sub-diagonal and last super-diagonal entry unused). filt6 solves a system whose inner rows are alpha, 1, alpha and whose right-hand side keeps "
     "polynomials up to degree 5 (degree 3 in the three rows at each end, which are explicit) and removes the sawtooth (+1, -1, ...), for every alpha. pade6 solves a system every row of which is exact for "
     "derivatives of polynomials up to degree 6, boundary rows included, and scales with 1/h. Both treat the two ends of the signal as mirror images.",
     ["inputs", "configurations"], "every signal of at least 7 samples, every alpha, every step h, every regular tridiagonal system",
     "The tests filter and differentiate one smooth signal with a tolerance of 1e-5, which low-order or one-sided boundary errors stay below.",
     ["PyEMD/compact.py"],
     [("solver", "PyEMD/compact.py:TDMAsolver"), ("filter", "PyEMD/compact.py:filt6"), ("derivative", "PyEMD/compact.py:pade6")],
     "extraction of the system row by row; order conditions on the coefficients; identities of rational functions for the solver",
     "Systems of 2-6 rows (solver; thorough 2-8) with symbolic coefficients, filter and derivative rows for lengths 7-10 (thorough 7-14). " + NOTE)

prop("C23", "Plots show each component in its own panel and the documented frequency",
     "plot_imfs draws one panel per component plus, when the residue is included, one for the residue; panel i shows exactly component i over the given times (sample numbers by default), is labelled with i, and the last panel shows the "
     "residue. plot_instant_freq draws for each component the derivative of its unwrapped Hilbert phase divided by 2 pi (forward difference with the last value repeated by default, sixth-order compact derivative with order=True), the "
     "analytic signal, phase and frequency being filtered when alpha is given. Explicitly passed data take precedence over those of the decomposition object. Requests without data, and alpha outside (-0.5, 0.5), are refused.",
     ["inputs", "configurations"], "every number of components, with and without residue, explicit times, decomposition object, order and alpha",
     "The tests only check that plotting raises no error (or raises the right one); nothing looks at what is drawn.",
     ["PyEMD/visualisation.py"],
     [("components", "PyEMD/visualisation.py:Visualisation.plot_imfs"), ("frequency", "PyEMD/visualisation.py:Visualisation.plot_instant_freq"), ("phase", "PyEMD/visualisation.py:Visualisation._calc_inst_phase")],
     "extraction of every drawing call with its panel, data and label as terms; entry-wise comparison with the documented picture for 1-3 components",
     "Pictures of 1, 2 and 3 components (and of the numbers around every number a condition compares the count with, up to 32) with 8 samples each, all entries symbolic; the Hilbert transform, phase unwrapping and the compact schemes are opaque row operations (the latter are C18's). " + NOTE)

prop("C26", "Image extrema are exact and images are mirrored over all borders",
     "EMD2D.prepare_image returns the 3 x 3 grid whose centre is the image and whose other blocks are its mirror images, so that every pixel outside the centre is the pixel reflected over the nearest border, corners included. EMD2D.find_extrema "
     "reports as maxima exactly the inner pixels not below any of their eight neighbours and as minima exactly those not above any, never border pixels, as (rows, columns), minima first. BEMD's maxima are the pixels raised above the "
     "morphological reconstruction of the image lowered by one, its minima are the maxima of the negative image, as (columns, rows).",
     ["inputs"], "every image: any shape, any pixel values, zero backgrounds and plateaus included",
     "The image tests decompose a few synthetic images (and are skipped without scikit-image); none looks at the positions of extrema near flat or zero-valued regions or at the corner blocks.",
     ["PyEMD/EMD2d.py", "PyEMD/BEMD.py"],
     [("mirroring", "PyEMD/EMD2d.py:EMD2D.prepare_image"), ("extrema", "PyEMD/EMD2d.py:EMD2D.find_extrema"), ("extrema", "PyEMD/BEMD.py:BEMD.extract_maxima_positions")],
     "extraction of the array terms (slice stores, flips, neighbourhood filters) and entry-wise comparison with the definition for small symbolic images",
     "Images of up to 4 x 4 (mirroring) and 5 x 5 (extrema) symbolic pixels (thorough: 5 x 5 and 7 x 6) and of the sizes around every number a condition compares a size with; morphological reconstruction is opaque. " + NOTE)

prop("C24", "The time axis is exact: sample numbers by default, unit and origin immaterial",
     "When no times are given the decomposition runs on the sample numbers 0..n-1, held exactly (all distinct) in a type of the same kind as the signal's and at least as large, for every numeric type and length; a length is refused only when no "
     "such type exists. Given times enter only as (t - t[0]) / (smallest increment): every extremum search and every envelope of EMD uses that axis (sample numbers with extrema_detection='simple'). Signal and times are brought to "
     "their common type and nothing but their type changes. The ensemble methods hand every inner decomposition the caller's times, such exact sample numbers, or none.",
     ["inputs", "configurations"], "every integer and float type, every length below 2^53, every time axis, both detection methods",
     "The tests try a few lengths and types; the conditions on type limits change at 2^7, 2^8, 2^11, 2^15, 2^16, 2^24, ... samples, per type.",
     ["PyEMD/utils.py", "PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("timeline", "PyEMD/utils.py:get_timeline"), ("ensembles", "PyEMD/EEMD.py:EEMD.eemd, PyEMD/CEEMDAN.py:CEEMDAN._eemd"), ("types", "PyEMD/utils.py:unify_types"), ("normalisation", "PyEMD/EMD.py:EMD._normalize_time"), ("use", "PyEMD/EMD.py:EMD.emd")],
     "gated terms for type and entries of the axis, decided per type on each interval between type limits; entry-wise comparison of the axis reaching the extremum search",
     "11 numeric types, lengths around every power of two at which a type's limit lies; symbolic times (2-5 entries, and around every length a condition names) for the normalisation. numpy's type promotion table is taken as given. " + NOTE)

prop("N01", "Every decomposition ends",
     "Every decomposition of finite input ends, with any option settings, also without max_imf and with any stopping criterion.",
     ["inputs", "configurations"], "every finite signal and image, every option setting",
     "A test ends by construction or hangs; no sample of inputs bounds the number of components for all.",
     ["PyEMD/EMD.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py"],
     [("component loop", "PyEMD/EMD.py:EMD.emd"), ("component loop", "PyEMD/BEMD.py:BEMD.bemd")],
     na="The sifting loops are bounded by MAX_ITERATION and the component loops by max_imf (decided under C09 and C10); without max_imf the number of components depends on how many extrema each numerically computed remainder has, "
        "and no ranking function over the source bounds that: a variant would have to be a theorem about spline envelopes.")

prop("N02", "Components are oscillatory modes ordered from fast to slow",
     "Each component is an intrinsic mode function (numbers of extrema and zero crossings differ by at most one, envelopes near zero mean) and components are ordered from high to low frequency; noise-assisted methods mix fewer modes than plain EMD.",
     ["inputs"], "every signal",
     "A statement about the numerical quality of every decomposition.",
     ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
     [("sifting", "PyEMD/EMD.py:EMD.emd")],
     na="Depends on the numerical behaviour of iterated spline envelopes (and, for the ensemble methods, on statistics of the noise); the source fixes only the recurrence and the criteria, which C13, C20, C21, C27 and C29 decide.")

prop("N03", "Rounding stays negligible",
     "The sum of the returned components differs from the input by rounding only: the error stays below a small multiple of the machine precision times the largest sample, for every signal, type and number of components.",
     ["inputs"], "every signal, type and number of components",
     "The error depends on magnitudes at run time.",
     ["PyEMD/EMD.py", "PyEMD/CEEMDAN.py"],
     [("accumulation", "PyEMD/EMD.py:EMD.emd")],
     na="The analyses argue over real arithmetic (C01 decides the identity itself); a rounding bound quantifies over run-time magnitudes of components and interpolation coefficients, which no static bound in reach limits.")

prop("N04", "Library primitives behave as documented",
     "numpy, scipy, scikit-image, numba and pathos do what their documentation says on every supported version: interpolators interpolate, generators have the stated distribution, pools deliver results in task order.",
     ["configurations"], "every supported version of the dependencies",
     "Outside the repository.",
     ["requirements.txt"],
     [("dependencies", "requirements.txt")],
     na="Their source is not part of the repository under analysis; the checks use models of these functions (sa/npmodel.py) as axioms.")
