"""Writes /verif/MANIFEST.json."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
TRUST = ("Sampling: seeded search, a clean batch is evidence, not proof. Trusts the simulator (dst/), NumPy/SciPy, and that "
         "the numba-compiled kernels behave like their Python source, which is what runs here. ")
C = {
 "C01": ("seeded histories of public calls in simulated processes, each call compared with a pristine process", "exploration",
         "Real empymod code in forked processes; every call of a seeded history (neighbours differ in one argument, shared "
         "and changed argument objects, failing calls, file operations, minima) must equal its outcome in a pristine process."),
 "C02": ("deterministic thread scheduler: seeded interleavings at source-line and bytecode granularity", "exploration",
         "Real threads, one running at a time; the simulator decides every switch (including waits for locks) from the seed."),
 "C03": ("fault injection at any source line, user function, read or library call, then continued histories", "exploration",
         "An exception is raised at a seeded instant; exception identity, minima, filters, arguments, process settings and "
         "the outcome of later calls are compared with a process in which the call was never made."),
 "C04": ("argument snapshots over seeded calls that succeed, fail or are aborted at seeded instants", "exploration",
         "Deep snapshots (bytes, identity, structure) of every argument before/after, modelling to low-level transforms."),
 "C05": ("seeded histories in which results are overwritten at arbitrary points", "exploration",
         "Memory overlap of results with arguments, other results and package state; later calls compared with pristine ones."),
 "C06": ("scheduled threads plus failing reads and interrupts during filter loads", "exploration",
         "Every filter object is compared with libdlf's data the moment it becomes visible, and all of them at the end."),
 "C07": ("simulated crashes, write failures and truncations of data files; histories of saves and loads", "fault_enumeration",
         "Save/overwrite/load histories with disk-full and kill at every/any byte, source line or open; loaded data must be "
         "exactly the old or new data."),
 "C08": ("simulated crashes, write failures and truncations of input files; computation compared", "fault_enumeration",
         "As C07 for save_input/load_input; the computation driven by the loaded input is compared as well."),
 "C09": ("simulated crashes, write failures and truncations of filter files; histories of saves and loads", "fault_enumeration",
         "As C07 for filters and inversion results. Two genuine findings are recorded in KNOWN_FINDINGS.txt."),
 "C10": ("simulated CLI processes with I/O faults, kills and broken pipes; directory tree and exit status checked",
         "fault_enumeration",
         "The real __main__ in simulated processes (and a sample in real ones) under seeded I/O faults, kills and interrupts."),
 "C11": ("discrete-event simulation of a coordinator with crashing workers and an unreliable network", "exploration",
         "Survey split into jobs, real modelling in worker processes; messages dropped, duplicated, delayed, reordered; workers "
         "stalled, killed at a line or byte, restarted; the assembled response equals the single call's."),
 "C12": ("simulated clock (frozen, zero, backward, jumping) under seeded calls and verbosities", "exploration",
         "All clocks of the process read simulated time; results and text compared with a pinned clock and verbosity zero."),
 "C13": ("user functions that raise or re-enter at seeded calls", "exploration",
         "Exception identity and re-entrancy for all kinds of user functions. One genuine finding is recorded."),
 "C14": ("injected non-convergence at seeded integrations among all those of a call", "exploration",
         "Seam at scipy.integrate.quad and real limits; warning printed iff an integration did not converge. One finding "
         "is recorded."),
 "C15": ("seeded histories of set_minimum, aborted and threaded calls against a reference model of the minima", "exploration",
         "Reference dictionary model; each call compared with a pristine process with these minima."),
 "C16": ("inversion failures injected at seeded grid points, against an executable reference of the design", "exploration",
         "LinAlgError at seeded (grid point, transform) pairs; objectives, best point and filter compared with an independent "
         "reference; points whose objective is decided by rounding errors are not judged."),
 "C17": ("process-wide settings compared before/after calls that succeed, fail or are aborted; second interpreter", "exploration",
         "Some 30 settings of the interpreter under varied initial settings and seeded aborts; a part of the calls repeated in "
         "an interpreter with other hash seed, directory, environment and random state."),
}
checks = []
for k, (tech, lev, note) in C.items():
    checks.append(dict(property=k, quick_cmd=f"./check {k} --tier quick", thorough_cmd=f"./check {k} --tier thorough",
                       evidence_file=f"evidence/{k}.json", technique="deterministic simulation: " + tech, level=lev,
                       level_note=note + " " + TRUST.strip()))
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=json.load(open(os.path.join(here, "tools", "not_applicable.json"))),
         notes="No hooks in /repo: all seams (clock, quad, linalg, files, threads, signals) are installed from outside.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
