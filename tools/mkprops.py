"""Writes /verif/properties.jsonl (kept as code so the texts are easy to diff)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


MODEL = ["empymod/model.py", "empymod/utils.py", "empymod/transform.py", "empymod/kernel.py"]

p("C01", "A call's result does not depend on the calls made before it",
  "What a public routine (modelling routines, filter design, saving and loading) returns or raises, and what it prints apart from run times, is determined by its arguments, the files it reads and the minima set with set_minimum. In one process, after any sequence of earlier calls - also with almost identical, larger, smaller or invalid arguments, the same argument objects, or calls that failed - it is the same as in a fresh process.",
  ["histories", "inputs"], "all sequences of public calls in one process, in particular sequences whose neighbours differ in one argument",
  "Tests call each routine once or twice per process and compare with stored numbers; state that leaks from one call into a later, different call is only seen for the histories they happen to contain.",
  MODEL + ["empymod/filters.py", "empymod/scripts/fdesign.py", "empymod/scripts/tmtemod.py", "empymod/io.py"],
  [("deep copies of htarg/ftarg", "empymod/utils.py:check_hankel,check_time,check_loop"),
   ("copies of array inputs", "empymod/utils.py:_check_var"),
   ("no caches except the filter registry", "empymod/filters.py:FILTERS")],
  ["return value, exception and stdout of every public routine"],
  [("FILTERS", "filters loaded so far", "empymod/filters.py"),
   ("_min_freq.._min_angle", "minimum values", "empymod/utils.py")])

p("C02", "Concurrent callers in threads each get the result of a lone call",
  "When several threads of one process call public routines at the same time, on separate or on shared read-only arguments (same arrays, same model dict, same settings dict, same filter object), every call returns or raises what it would if it ran alone, and no call blocks forever. This includes the first use of a filter by several threads at once.",
  ["schedules", "inputs"], "all interleavings of 2-4 threads at source-line and bytecode granularity",
  "The test-suite is single threaded; a scratch buffer, cache or temporarily changed global shared between calls can only be seen under specific interleavings.",
  MODEL + ["empymod/filters.py", "empymod/scripts/fdesign.py"],
  [("all working arrays are local", "empymod/kernel.py, empymod/transform.py"),
   ("check then load then publish", "empymod/filters.py:_BaseFilter.__getattribute__")],
  ["return value of each thread's call"])

p("C03", "A failed or interrupted call leaves no trace in the process",
  "If a public routine is aborted at any instant - invalid input, an exception from a user function, KeyboardInterrupt, out of memory, a failing read - the exception reaches the caller, and every later call in the process behaves as if the aborted call had never been made. The minima, the loaded filters, the caller's arguments and the process-wide settings are as before, and simply repeating the call gives the regular result.",
  ["fault_sequences", "crash_points", "histories"], "all abort instants (every executed source line of the package) of every public call, followed by further calls",
  "Tests only exercise documented ValueErrors raised during input checks and never continue with the same process state deliberately.",
  MODEL + ["empymod/filters.py", "empymod/scripts/fdesign.py"],
  [("state is only published once complete", "empymod/filters.py:_BaseFilter.__getattribute__"),
   ("errstate as context manager", "empymod/transform.py:qwe, empymod/kernel.py")],
  ["results of calls after the aborted one", "get_minimum()", "arguments"])

p("C04", "Routines never modify what the caller passed in",
  "No public routine - modelling routines and fem/tem, the Hankel and Fourier transform routines, filter design, saving - changes any array, list, dictionary (nested settings and model dictionaries included), filter or transform-pair object it is given, be the call successful, failing or aborted midway. The same argument objects can therefore be used again, in any other call, with the same outcome as fresh ones.",
  ["inputs", "histories", "fault_sequences"], "all public routines, all argument containers, all return and abort paths, reuse of the same objects",
  "Tests build fresh inputs for each call and check outputs, not inputs.",
  MODEL + ["empymod/scripts/fdesign.py", "empymod/io.py"],
  [("_check_var copies", "empymod/utils.py:_check_var"), ("args = deepcopy(htarg)", "empymod/utils.py:check_hankel,check_time"),
   ("loops re-bind, not write", "empymod/model.py:bipole")],
  ["arguments after the call"])

p("C05", "A returned result belongs to the caller alone",
  "Arrays and objects returned by modelling routines, input/data loading and filter design do not share memory with the arguments, with any state of the package, or with the result of any other call. Overwriting a returned result never changes an argument, an earlier or later result, or the behaviour of later calls.",
  ["histories", "inputs"], "all sequences of calls in which earlier results are overwritten at arbitrary points",
  "Tests look at a result once and drop it; aliasing between results of different calls needs a history with writes in between.",
  MODEL + ["empymod/io.py", "empymod/scripts/fdesign.py", "empymod/filters.py"],
  [("results are newly allocated", "empymod/model.py"), ("get_minimum returns a new dict", "empymod/utils.py:get_minimum")],
  ["memory of results and arguments"])

p("C06", "A filter is exact and complete however it is first loaded",
  "Every filter offered by empymod.filters.Hankel() and Fourier(), accessed in any order, from any instance, by name in a modelling call or directly, by several threads at once, or again after a load that failed or was interrupted, has the base and coefficients of libdlf and their spacing factor. A filter is never visible half-loaded, a failed load raises and is not remembered, and using or saving a filter (or overwriting a copy of it) does not change the registry.",
  ["schedules", "fault_sequences", "histories"], "all access orders, interleavings of first use, and read faults or interrupts during a load",
  "Tests load each filter once without faults, in one thread.",
  ["empymod/filters.py", "empymod/utils.py"],
  [("lazy load and cache", "empymod/filters.py:_BaseFilter.__getattribute__")],
  ["base, factor and coefficients of the filter objects"], [("FILTERS", "cache", "empymod/filters.py")])

p("C07", "Saved data is read back exactly, or loading raises",
  "save_data followed by load_data gives back the same values (every float64 or complex128 exactly, infinities and signed zeros included, NaN as NaN), shape (nfreqtime, nrec, nsrc) and kind (real/complex) as an EMArray, for .txt and .json, for any info text and any earlier content of the file. If the save fails (disk full, I/O error) it raises; if it was killed at any point, or the file was cut short afterwards, load_data raises or returns exactly the old or the new data, never anything else.",
  ["inputs", "crash_points", "fault_sequences", "histories"], "all 3-D float64/complex128 arrays, all kill points and write failures, all truncation lengths, all save/overwrite/load histories",
  "Tests save two small arrays and read them back; no failure of the file system and no truncated file is tried.",
  ["empymod/io.py"],
  [("18 digits, shape and dtype in the header", "empymod/io.py:save_data"), ("reshape to the stored shape", "empymod/io.py:load_data")],
  ["load_data return value", "bytes on disk"])

p("C08", "A saved input drives exactly the same computation",
  "A dictionary of modelling arguments written with save_input and read with load_input (and again after any number of further save/load rounds) makes the modelling routine return what it returns for the original dictionary. A save that fails raises, and a file that was cut short or whose writing was killed at any point is never loaded as a different input: load_input raises or returns the complete old or new input.",
  ["inputs", "crash_points", "fault_sequences", "histories"], "all JSON-representable modelling inputs incl. NumPy arrays/scalars, filter objects and nested settings; all kill points and truncations",
  "Tests round-trip one dictionary and never a damaged file.",
  ["empymod/io.py", "empymod/model.py"],
  [("_ComplexNumPyEncoder", "empymod/io.py"), ("one closing brace at the very end", "empymod/io.py:save_input")],
  ["results computed from the loaded input"])

p("C09", "Filters and inversion results written to files are read back exactly",
  "A digital filter saved to its text files and loaded again has the same base and coefficients (exactly) and gives the same modelling result; the complete output of a filter design saved with it is read back with the same best values, grid and shape, also as gzip file. A save that cannot write everything raises, one that is repeated leaves the new content, and what is loaded after a failed or killed save is never a filter that nobody saved.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "all filters (built-in, designed, user defined names and coefficient sets), all save/load histories, all write failures and kill points",
  "Tests save one or two filters once to an empty directory without failures.",
  ["empymod/filters.py", "empymod/scripts/fdesign.py"],
  [("tofile/fromfile", "empymod/filters.py"), ("save_filter/load_filter", "empymod/scripts/fdesign.py")],
  ["attributes of the loaded filter"])

p("C10", "The command line succeeds only with a complete, correct result",
  "If the command `empymod ROUTINE INPUT [OUTPUT]` exits with status zero, the output file (or the standard output, as NumPy prints it) holds the complete result that the Python routine of that name returns for that input with squeeze=False, and nothing but that file is created or changed. If anything goes wrong - missing, damaged or unreadable input, invalid arguments, an output that cannot be opened or fully written, a broken or full standard output, a kill at any point - the exit status is non-zero with a message, and no output file is left that loads as a different result. A valid invocation in which nothing goes wrong exits with status zero.",
  ["fault_sequences", "crash_points", "inputs"], "all routines and inputs of the CLI, all I/O failures at any operation and any byte",
  "Tests run the command with valid input and a missing file only.",
  ["empymod/__main__.py", "empymod/io.py"],
  [("main returns the exception", "empymod/__main__.py:main"), ("squeeze=False, save_data", "empymod/__main__.py:run")],
  ["exit status, stdout, stderr, output file"])

p("C11", "A survey can be split into jobs and reassembled",
  "With transforms that treat each point separately (standard DLF without lagged or splined evaluation, QWE without spline, QUAD with fixed limits), the response of any source-receiver-frequency combination is the same whether it is computed alone, in a batch with any others, in any order, for any loop option and in any worker process, and is placed at its own index (frequency/time, receiver, source) of the result. A coordinator that hands jobs (Python objects, pickles or input and output files) to workers that are slow, crash, restart, or whose messages are lost, duplicated and reordered, thus always assembles the response of the single call.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all partitions of a survey into jobs, all loop modes, all delivery orders, duplications, losses and worker crashes",
  "Tests compare a few multi-source/-receiver calls with single calls; the combinations of partition, loop mode, routine, signal and order are unbounded.",
  MODEL + ["empymod/io.py", "empymod/__main__.py"],
  [("loops over freq/offset", "empymod/model.py:fem"), ("order='F' reshapes", "empymod/model.py"), ("loops over src/rec bipoles", "empymod/model.py:bipole")],
  ["assembled array"])

p("C12", "Neither the clock nor the verbosity influence a result",
  "For any behaviour of the system clock (standing still, jumping backwards or forwards, starting at zero) and any verbosity, a routine returns and stores the same values. A successful modelling call or filter design prints exactly one START line with a verbosity of three or more, exactly one END line with the elapsed time with two or more, nothing but warnings with one, and nothing at all with zero.",
  ["fault_sequences", "configurations", "inputs"], "all clock readings a run can meet and all verbosity levels, for all public routines with a verbosity",
  "Tests run with a well-behaved clock and check printed text for single calls.",
  ["empymod/utils.py", "empymod/model.py", "empymod/scripts/fdesign.py", "empymod/scripts/tmtemod.py", "empymod/io.py"],
  [("printstartfinish", "empymod/utils.py"), ("_print_count", "empymod/scripts/fdesign.py")],
  ["stdout, results, stored files"])

p("C13", "User functions are called safely: errors pass through, re-entry is harmless",
  "An exception raised by a user function (hooks for eta and zeta in the model dictionary, frequency-band function, theoretical transform pairs of a filter design) at any of its calls reaches the caller of the routine as that very exception, and the next call works regularly. A user function may itself call any empymod routine; neither the inner nor the outer result changes.",
  ["fault_sequences", "schedules", "inputs"], "all user function kinds, all call indices at which they raise, all re-entrant calls made from them",
  "Tests use well-behaved hooks only.",
  MODEL + ["empymod/scripts/fdesign.py"],
  [("func_eta/func_zeta hooks", "empymod/model.py"), ("bandpass", "empymod/model.py:bipole,dipole"), ("Ghosh.lhs/rhs", "empymod/scripts/fdesign.py")],
  ["exception identity, results"])

p("C14", "Quadrature that did not converge is always reported",
  "Whenever one of the adaptive integrations behind a call - for the Hankel or the Fourier transform, with QUAD, with QWE, or with the QUAD fall-back of QWE - reports or reaches its limit without meeting the tolerance, for any one of the offsets, times or kernels involved, the routine prints its convergence warning naming the transform (verbosity one or more). With no such event the warning is not printed, and the warning never changes the values returned.",
  ["fault_sequences", "inputs"], "all positions of a failing integration among the many a call makes, for all transforms and survey sizes",
  "Non-convergence of one particular integral among hundreds cannot be arranged with ordinary input; tests trigger it in one or two calls.",
  ["empymod/transform.py", "empymod/model.py", "empymod/utils.py"],
  [("conv flags", "empymod/transform.py:quad,qwe,hankel_quad,hankel_qwe,fourier_qwe"), ("conv_warning", "empymod/utils.py"), ("conv *= tc", "empymod/model.py:fem,tem")],
  ["stdout"])

p("C15", "Minimum values act from when they are set until they are changed",
  "After any sequence of set_minimum calls (any subset of the values each), get_minimum returns for each value the one set last, or its default; changing the returned dictionary has no effect. Every call uses exactly the minima in force when it is made - in whatever order and thread of control, with failing and aborted calls in between - and no call changes them.",
  ["histories", "fault_sequences", "inputs"], "all histories of set_minimum, get_minimum and modelling calls",
  "Tests set the minima once and look at one effect.",
  ["empymod/utils.py", "empymod/kernel.py", "empymod/model.py"],
  [("set_minimum/get_minimum", "empymod/utils.py"), ("_check_min", "empymod/utils.py")],
  ["get_minimum(), results around the minima"], [("_min_*", "minimum values", "empymod/utils.py")])

p("C16", "A filter design returns the best grid point, also when inversions fail",
  "A filter design evaluates every requested spacing-shift combination and returns the filter of the combination with the smallest objective value together with the objective of all of them. If the inversion of any of the transforms fails for some combinations (singular matrix), these are discarded (their objective is infinite) and the outcome is that of the best of the remaining ones; the same design repeated gives the same filter.",
  ["fault_sequences", "inputs", "histories"], "all grids, transform-pair sets, criteria and all subsets of grid points/transforms whose inversion fails",
  "Singular inversions at chosen grid points cannot be produced by ordinary input; the tests contain none for several transforms.",
  ["empymod/scripts/fdesign.py"],
  [("brute force over the grid", "empymod/scripts/fdesign.py:design"), ("LinAlgError handling", "empymod/scripts/fdesign.py:_calculate_filter")],
  ["returned filter and full output"])

p("C17", "Process-wide settings of Python and NumPy are left as they were",
  "Calling any public routine leaves the interpreter as it was: NumPy floating-point error handling and print options, warning filters, the global random state of Python and NumPy, working directory, environment, standard streams, locale, signal handlers, recursion limit, threads and open files. This holds on success, on error, and if the call is aborted at any instant; and no result depends on the working directory, the hash seed or the random state.",
  ["fault_sequences", "crash_points", "configurations"], "all public routines, all return and abort paths, all initial settings",
  "Tests never compare process-wide settings before and after a call.",
  MODEL + ["empymod/scripts/fdesign.py", "empymod/io.py", "empymod/filters.py"],
  [("np.errstate as context manager/decorator", "empymod/scripts/fdesign.py, empymod/transform.py, empymod/kernel.py")],
  ["np.geterr(), warnings.filters, random state, cwd, environ, sys.stdout, fds"])

# --- Not decidable with deterministic simulation: pure functions of the input
NA = {}


def na(id, title, statement, why, files, reason):
    p(id, title, statement, ["inputs"], "all inputs", why, files, [("numerics", files[0])], ["return value"])
    NA[id] = reason


R = "pure function of its arguments: no schedule, clock, fault, I/O or interleaving takes part, so simulation would only be input generation"
na("C18", "The layered solution agrees with analytical full- and half-space solutions",
   "For models whose layers all have the same parameters the layered routines return the analytical full-space response, and for two half-spaces in the diffusive limit the analytical half-space response, within the accuracy of the transforms.",
   "Holds for every geometry, anisotropy and frequency; tests sample a few.", MODEL, R)
na("C19", "Source and receiver can be exchanged (reciprocity)",
   "Exchanging source and receiver (with the sign given by their kinds) gives the same response in any layered VTI model.",
   "Holds for every model and geometry; tests sample a few.", MODEL, R)
na("C20", "Different Hankel and Fourier transform methods agree",
   "DLF, QWE and QUAD for the Hankel transform, and DLF, QWE, FFTLog and FFT for the Fourier transform, give the same response within their stated accuracy.",
   "Holds for all inputs within the range of validity.", MODEL, R)
na("C21", "Arbitrarily oriented bipoles are the superposition of rotated dipoles",
   "A bipole of finite length is the integral over the dipoles along it, and a rotated dipole the trigonometric combination of the principal components; strength scales linearly.",
   "Holds for all orientations and lengths.", MODEL, R)
na("C22", "Splitting a layer, or flipping the coordinate system, changes nothing",
   "Introducing an interface between identical layers, or describing the same model in the other (left-/right-handed, increasing/decreasing depth) convention, leaves the response unchanged.",
   "Holds for all models.", MODEL, R)
na("C23", "Time-domain responses to switch-on, switch-off and impulse are consistent",
   "Switch-on plus switch-off gives the DC response, the impulse is the derivative of the step, and an arbitrary waveform is the linear superposition of step responses.",
   "Holds for all models and waveforms.", MODEL, R)
na("C24", "TE/TM and direct/reflected parts add up to the total field",
   "The sums of the mode-split and of the direct/reflected-split responses equal the total field.",
   "Holds for all models.", ["empymod/scripts/tmtemod.py", "empymod/kernel.py"], R)
na("C25", "Invalid input is rejected with an error, valid input is not",
   "Each routine raises a ValueError or TypeError for inputs outside its documented domain (wrong shapes, unknown names, negative times, sources on different depths for dipoles) and accepts all documented forms.",
   "Unbounded input space.", ["empymod/utils.py", "empymod/model.py"], R)
na("C26", "Output has the documented shape and type",
   "Every routine returns an EMArray of shape (nfreqtime, nrec, nsrc), squeezed if requested, whose amplitude and phase are those of its values.",
   "Unbounded input space.", ["empymod/model.py", "empymod/utils.py"], R)
na("C27", "A designed filter transforms unseen functions within its error level",
   "A filter returned by a successful design reproduces the theoretical transform pairs it was checked with to the requested relative error down to the reported amplitude.",
   "Holds for all designs.", ["empymod/scripts/fdesign.py"], R)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(here, "tools", "not_applicable.json"), "w") as f:
    json.dump([dict(property=k, reason=v) for k, v in NA.items()], f, indent=1)
