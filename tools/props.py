"""Per-property settings of the checks: numbers of runs, counting rule, components."""
LIB = "the ExSeisDat library (all of src/), compiled from /repo's working tree"
PROPS = {
    "C03": dict(
        quick=12000, thorough=400000, real=LIB,
        rule="One run = a random sequence of collective library calls (parallel writes, reads, sorts, min/max, gather searches, order checks) with unequal "
             "local work on 2..7 ranks; every run is non-trivial. The simulator judges progress, matching of collectives, messages and buffer use."),
    "C07": dict(
        quick=12000, thorough=400000, real=LIB,
        rule="One run = a random distributed sort (ranks, shares including empty ones, key distribution, comparison, header rule), checked as permutation, order "
             "and position list, sometimes repeated on other ranks, a sorted copy of a file, or a file whose order is checked (also by the verifysort utility); non-trivial with several ranks and traces."),
    "C08": dict(
        quick=20000, thorough=800000, real=LIB,
        rule="One run = a random division of coordinates over ranks searched for extremes (template or header-parameter interface, or a set of files); "
             "non-trivial with several ranks."),
    "C09": dict(
        quick=20000, thorough=800000, real=LIB,
        rule="One run = a file of random in-line/cross-line runs searched for gathers by 1..8 ranks, every rank reading the whole list; non-trivial with "
             "several ranks and at least one gather."),
    "C10": dict(
        quick=20000, thorough=800000, real=LIB,
        rule="One run = a random history of stores and loads (also outside the vector) by 1..6 ranks in synchronised phases over one of six element types; "
             "non-trivial with several ranks and a non-empty vector."),
    "C13": dict(
        quick=15000, thorough=500000, real=LIB,
        rule="One run = a random sequence of communicator helpers on world, split or reordered communicators, or several groups of processes working "
             "independently (write, read, sort, gathers, min/max) each on its own communicator; non-trivial with several ranks or groups."),
    "C01": dict(
        quick=18000, thorough=600000, real=LIB,
        rule="One run = a random plan of parallel SEG-Y writes (ranks, shares, lists, kinds, transfer limit, prior file content) executed under a "
             "random schedule and again by one process; non-trivial when at least one trace is written."),
    "C02": dict(
        quick=18000, thorough=600000, real=LIB,
        rule="One run = a random file and a random plan of parallel reads (contiguous, increasing, unordered with repeats; headers, samples, both) under "
             "a random schedule, every returned value compared with an independent decoder; non-trivial when the file has traces."),
    "C04": dict(
        quick=15000, thorough=400000, real=LIB,
        rule="One run = up to three jobs killed at random steps followed by a complete job over the remains, or one job over random prior content, compared byte "
             "for byte with an independent model and with the same job on a fresh name; non-trivial when the complete job ran."),
    "C05": dict(
        quick=18000, thorough=600000, real=LIB,
        rule="One run = a job writing two files and reading a third, or one that sorts, gathers, searches, models and runs flows, while file operations fail; non-trivial when at least one failure was injected."),
    "C06": dict(
        quick=18000, thorough=600000, real=LIB,
        rule="One run = a job writing two files and reading a third, one that sorts, gathers, searches, models and runs flows, or a utility, while file operations fail on one, some or all ranks; non-trivial when at least one failure was injected."),
}
_ADD = {
    "C11": dict(
        quick=9000, thorough=500000, real=LIB,
        rule="One run = a flow over 0..5 SEG-Y files of one or two sampling classes (sorts, tapers, gains, frequency filters, text, several outputs) on 1..6 ranks with "
             "a random block limit, every output file compared trace by trace with a serial reference; non-trivial when a file has traces."),
    "C12": dict(
        quick=9000, thorough=500000, real=LIB,
        rule="One run = a velocity model read for random gathers by 1..6 ranks, or a radon-to-angle flow over files of random gathers (also sorted first, also "
             "followed by tapers), compared with a serial reference; every run is non-trivial."),
    "C14": dict(
        quick=5000, thorough=300000, real=LIB + " and the fourdbin utility (its own main)",
        rule="One run = the 4D binning utility run by 1..7 ranks on two random surveys (empty, disjoint, repeated in either direction, with ties and boundaries), its "
             "two output files compared with a serial search over all pairs; non-trivial when both surveys have traces."),
    "C15": dict(
        quick=16000, thorough=500000, real=LIB + " and the utilities makerep, filemake, concatenate and segsort (their own mains)",
        rule="One run = one utility run by 1..8 ranks with random input files, options and block limits, its output compared byte for byte or trace by trace with an "
             "independent model; non-trivial when there are traces to copy or to make."),
    "C16": dict(
        quick=10000, thorough=600000, real=LIB + " and nine utilities (their own mains)",
        rule="One run = a random program of library operations (files, sorts, vectors, flows, extra handles and communicators, missing and unused files), a job whose "
             "file operations fail, or a utility, with MPI started and ended by the library or by its user; at the end every rank's table of MPI handles and open "
             "streams must be as before; non-trivial when the job ended normally (a job the library aborted has nothing to release)."),
    "C17": dict(
        quick=9000, thorough=400000, real=LIB + " and its C bindings",
        rule="One run = one random program (rules, headers, reads, writes, sorts, extremes, flows with several operations, user-supplied functions, errors) executed "
             "through the C interface and again through the C++ interface under a different schedule; every run is non-trivial."),
    "C21": dict(
        quick=20000, thorough=1000000, real=LIB,
        rule="One run = a file of arbitrary trace headers read by 1..4 ranks with a random rule (built by a random history of edits), optionally copied to structures "
             "with a second rule, modified and written; every value read or copied and every header byte written compared with an independent model; every run is non-trivial."),
    "C24": dict(
        quick=20000, thorough=1000000, real=LIB + " and the utilities segy2kml, traceanalysis and assess (their own mains; file streams are simulated)",
        rule="One run = one of the three utilities run by 1..6 ranks on random files; the document or the text printed by every process compared with what an "
             "independent decoder finds in the files; every run is non-trivial."),
}
PROPS.update(_ADD)
_PURE = ("a pure function of its input in one process: no schedule, clock, fault, I/O or second party takes part, so there is nothing for a simulator to decide")
NOT_APPLICABLE = {
    "C20": _PURE,
    "C22": _PURE,
    "C23": _PURE,
}
