#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

ONE = "Every existing test runs as one MPI process (mpiexec is never used with more than one), with mocks or fixed files and the default 2 GiB chunk limit; "

prop("C01", "A file written in parallel is byte-for-byte the file written serially",
 "Whatever the number of processes, however the traces are divided among them (contiguous ranges, strided or arbitrary position lists, empty shares, headers only, samples only or both together, in one call or several), and whatever the per-call transfer limit or collective/independent mode, the bytes of the SEG-Y file after the writer is closed are exactly those one process writing the same traces would have produced. Bytes belonging to traces nobody wrote are not disturbed, and the caller's arrays hold the same values after the call as before.",
 ["schedules", "inputs", "configurations", "programs"],
 "all rank counts, divisions of traces over ranks, sequences of write calls, sample counts, chunk limits, collective or independent transfer, message/transfer schedules",
 ONE + "so no division of work, no interleaving of writers and no multi-chunk path is ever exercised.",
 ["src/DataMPIIO.cc", "src/ObjectSEGY.cc", "src/WriteSEGY.cc", "src/WriteDirect.cc", "src/segy_utils.cc", "src/Param.cc", "src/param_utils.cc"],
 [("chunked contiguous / strided / list writes with equalised collective call counts", "src/DataMPIIO.cc contigIO, listIO, writev"),
  ("trace layout (240-byte header + samples after the 3600-byte file header)", "include/ExSeisDat/PIOL/segy_utils.hh, src/ObjectSEGY.cc"),
  ("in-place byte swapping undone after the write", "src/WriteSEGY.cc writeTraceT")],
 [("maxSize", "bytes per MPI-IO call", "include/ExSeisDat/PIOL/DataMPIIO.hh")],
 ["file bytes after close", "caller buffers after each call", "error state of every process"])

prop("C02", "A parallel read returns exactly the requested traces of the file",
 "Each process obtains, for every trace position it asked for (contiguous range, increasing list, or unordered list with repeats; headers, samples or both), exactly the header values and samples stored at that position, independently of what, how much or in how many pieces the other processes read at the same time, and a contiguous request running past the end yields exactly the traces that exist. Elements outside the requested part of the caller's arrays are untouched, and reading never changes a byte of the file.",
 ["schedules", "inputs", "configurations", "programs"],
 "all rank counts, per-rank requests (including none), file sizes, chunk limits, collective/independent mode, IBM/IEEE sample formats, schedules",
 ONE + "so reads whose ranks need different numbers of collective calls, or whose requests span several chunks, are never run.",
 ["src/DataMPIIO.cc", "src/ObjectSEGY.cc", "src/ReadSEGY.cc", "src/ReadDirect.cc", "src/segy_utils.cc", "src/param_utils.cc"],
 [("chunked contiguous / strided / list reads", "src/DataMPIIO.cc contigIO, listIO, readv"),
  ("sorting and de-duplicating an unordered request list", "src/ReadSEGY.cc readTraceNonMonotonic"),
  ("clamping to the number of traces", "src/ReadSEGY.cc readTrace")],
 [], ["caller arrays on each rank", "file bytes before and after", "error state"])

prop("C03", "Work imbalance between processes never blocks or desynchronises a job",
 "For every collective sequence of library calls (open, read, write, sort, min/max, gather search, close) in which all processes call the same operations but with arbitrary and different amounts of local work, including none, every process returns from every call and the job ends. On the way all processes issue the same collective operations in the same order, every message sent is received, and no communication buffer is touched while its transfer is still in progress.",
 ["schedules", "programs", "inputs", "configurations"],
 "all rank counts, per-rank amounts of work including zero, chunk limits, operation sequences, message delivery orders and relative process speeds",
 ONE + "so a hang, an unmatched collective or an overtaken message cannot show.",
 ["src/DataMPIIO.cc", "src/Flow/Set.cc", "src/sort.cc", "src/gather.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc", "src/CommunicatorMPI.cc"],
 [("padding of collective call counts (remCall)", "src/DataMPIIO.cc"), ("extra empty rounds", "src/Flow/Set.cc startSingle, startGather"),
  ("neighbour exchange with wait on both sides", "src/sort.cc")],
 [], ["termination of every rank", "the ordered list of collectives per communicator/file", "unmatched messages and open requests at the end"])

prop("C04", "Closing an output file leaves a complete, consistent SEG-Y file",
 "Once the last process has closed a written file, its text header, sample count, sampling interval, format code and fixed fields are those the writer was given, and its length is exactly the file header plus the number of traces fixed by the furthest trace any process wrote (or by the explicit count). This holds whatever was in the file before: writing again over a longer, shorter or half-written file left by a job killed at any point gives the same bytes as writing to a fresh name.",
 ["schedules", "inputs", "crash_points", "configurations"],
 "all rank counts, which rank writes the last trace, prior file contents, points at which an earlier job was killed (with unflushed writes lost or torn), schedules",
 ONE + "into fresh files; nothing tests re-writing, and a killed job cannot be expressed in them.",
 ["src/WriteSEGY.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc", "src/segy_utils.cc"],
 [("trace-count reduction, truncation and header write on close", "src/WriteSEGY.cc ~WriteSEGY, calcNt"), ("file size set from nt and ns", "src/DataMPIIO.cc setFileSz")],
 [("nt / stalent / resize", "locally known trace count and whether it must be reduced", "include/ExSeisDat/PIOL/WriteSEGY.hh")],
 ["file bytes and length after close", "re-opening the file with the reader"])

prop("C05", "An I/O failure is always reported to the process that suffers it",
 "If opening, sizing, reading, writing, re-sizing or closing a file fails for a process at any moment (I/O error, no space, torn write, permission), that process's error state is set by the time the library call (or the close) returns and a message naming the file is in its log; it never presents the affected data as good. A process that met no failure gets exactly the data it asked for, and a file which met no failure and was closed before any process was in error holds exactly the right bytes; where nothing failed, no error is reported.",
 ["fault_sequences", "schedules", "inputs"],
 "all I/O calls of all access patterns, each at which a failure may strike one or all ranks, several failures in one run, chunked transfers",
 "The tests run on healthy files; only opening a missing file is tried. No injected read, write, resize or close failure is ever seen.",
 ["src/DataMPIIO.cc", "src/ObjectSEGY.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc", "src/Logger.cc", "src/ExSeisPIOL.cc"],
 [("error codes of every MPI-IO call recorded in the log", "src/DataMPIIO.cc"), ("sticky error state", "src/Logger.cc record, isErr")],
 [("Logger::error", "sticky error flag", "include/ExSeisDat/PIOL/Logger.hh")],
 ["isErr() of each rank right after the call", "log records", "data returned to unaffected ranks"])

prop("C06", "An I/O failure on one process never hangs the job",
 "When a file operation fails on one, some or all processes, every process still comes back from the library call it is in, from all later calls of the same sequence and from closing its files (or the job stops through the library's own fatal-error exit); nobody waits for ever for a process that gave up early. No memory outside the caller's arrays is touched on the way.",
 ["fault_sequences", "schedules", "programs"],
 "all I/O calls, every subset of ranks seeing the failure, chunked transfers, the operations that follow, delivery schedules",
 "No test injects a failure with more than one process, so an early return that leaves the others in a collective call cannot be seen.",
 ["src/DataMPIIO.cc", "src/WriteSEGY.cc", "src/ReadSEGY.cc", "src/ExSeisPIOL.cc"],
 [("continuing the padded collective sequence after an error", "src/DataMPIIO.cc contigIO, listIO"), ("closing after an error", "src/WriteSEGY.cc ~WriteSEGY")],
 [], ["termination of every rank within the step budget", "memory checker"])

prop("C07", "The distributed sort is a correct, schedule-independent global sort",
 "Sorting trace headers held by any number of processes, in any distribution, yields across the processes in rank order a permutation of the input that is ordered by the given comparison, every trace keeping all its header values; the position list (for traces numbered by their place, as the sort requires) gives for each trace in its original place its unique position in that order; and the order check tells every process truly whether the traces of its part of a file are in order. The result depends only on the data and the comparison, never on message timing or how many processes hold the data, up to the order among equal elements.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, local sizes, key distributions (equal, sorted, reversed, clustered on one rank), comparison functions, message delivery orders",
 ONE + "so neither the neighbour exchange nor its termination test ever runs.",
 ["src/sort.cc", "src/param_utils.cc", "include/ExSeisDat/PIOL/operations/sort.hh", "src/Flow/Cache.cc"],
 [("alternating neighbour exchange until no rank changed", "src/sort.cc"), ("mapping back through global trace numbers", "src/sort.cc sort(piol, list)")],
 [("regionSz", "elements exchanged per round", "src/sort.cc")], ["sorted parameters on each rank", "returned position list"])

prop("C08", "Global minimum/maximum search agrees with a serial scan",
 "For any division of traces over processes, the reported minimum and maximum of each coordinate equal the true extremes over all traces (of all files of a set), each with the number of a trace that attains it, and every process receives the same answer.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, local counts including empty ranks, value distributions including negatives and ties across ranks, several files",
 ONE + "with non-negative data and a non-empty share, so the cross-rank reduction is never exercised.",
 ["include/ExSeisDat/PIOL/operations/minmax.h", "src/Flow/Set.cc", "util/minmax.cc"],
 [("local extremes gathered and reduced identically on every rank", "include/ExSeisDat/PIOL/operations/minmax.h"), ("accumulation over files", "src/Flow/Set.cc getMinMax")],
 [], ["the returned value/trace-number pairs on every rank"])

prop("C09", "Gathers are discovered identically and completely on every process",
 "Splitting a line-ordered file into gathers gives, on every process and for every number of processes (more processes than traces or gathers included), the same list: one entry per maximal run of traces sharing an in-line/cross-line pair, in file order, with that pair and the run's exact length. The lengths sum to the number of traces.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, gather sizes and positions relative to rank boundaries (one gather spanning several ranks, several inside one), one-sided transfer orderings",
 ONE + "so no gather ever crosses a process boundary and no remote entry is ever read.",
 ["src/gather.cc", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh", "include/ExSeisDat/utils/gathers.h", "include/ExSeisDat/utils/Distributed_vector.hh"],
 [("boundary exchange and joining of partial gathers", "src/gather.cc"), ("one-sided publication of the list", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh")],
 [], ["size and entries of the returned list read on every rank"])

prop("C10", "The distributed vector behaves as one shared array",
 "A value stored at an index by any process is what every process reads at that index afterwards (after a synchronisation between them), whoever owns the element and in whatever order and timing the accesses happen; different indices never interfere, the size is the requested one everywhere, and an index outside the vector is rejected instead of touching memory.",
 ["schedules", "histories", "inputs", "configurations"],
 "all rank counts, vector lengths (shorter than, equal to, not divisible by the rank count), element types, access histories, one-sided completion orders",
 ONE + "and the distributed vector has no test of its own beyond that; one-sided operations complete immediately there.",
 ["include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh", "include/ExSeisDat/utils/Distributed_vector.hh", "include/ExSeisDat/utils/decomposition/block_decomposition.h", "src/utils/decomposition/block_decomposition.cc"],
 [("block decomposition of indices and RMA put/get under lock", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh")],
 [], ["values read, exceptions or rejections, memory checker"])

prop("C11", "A processing flow gives the result of running it serially",
 "For any set of input files, any sequence of sort, taper, gain, filter and text steps, any process count and any memory block size, each output file (one per sample-count/interval class, with the documented name) contains every input trace exactly once, in file order or in the sorted order, each with its own header and its samples transformed as specified. The inputs stay unchanged and the names of the files written are returned.",
 ["schedules", "inputs", "configurations", "programs"],
 "all rank counts, files per set, traces per file, classes of files, block sizes, operation sequences, schedules",
 ONE + "with the 1 GiB block limit never reached, so blocks, empty rounds and cross-rank sorting are untested.",
 ["src/Flow/Set.cc", "src/Flow/Cache.cc", "src/sort.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc", "include/ExSeisDat/Flow/Set.hh"],
 [("assignment of output positions and block loop", "src/Flow/Set.cc startSingle, startSubset"), ("cached parameters with global numbering", "src/Flow/Cache.cc")],
 [("ilst / olst", "input and output positions of local traces", "include/ExSeisDat/Flow/Set.hh")],
 ["output file bytes, input file bytes, returned names"], "override of the 1 GiB block limit")

prop("C12", "Gather flows give each gather's result once, whatever the process count",
 "A radon-to-angle flow over any gathers writes, for each input gather in order, exactly its angle traces with that gather's in-line and cross-line numbers and samples computed from that gather and the velocity model at its location only, regardless of how gathers are dealt out to processes and of processes that receive fewer or none. Velocity-model values are those stored for the grid position of the gather, whichever process asks.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, numbers and sizes of gathers not divisible by the rank count, velocity-model grids, preceding/following steps, schedules",
 "Gather flows are tested on one process with one regular file, so uneven dealing of gathers and empty rounds never occur.",
 ["src/Flow/Set.cc", "src/Flow/RadonGatherState.cc", "src/ReadSEGYModel.cc", "src/ReadModel.cc", "src/gather.cc"],
 [("round-robin dealing with offset/sum per round", "src/Flow/Set.cc startGather"), ("velocity lookup", "src/ReadSEGYModel.cc, src/Flow/RadonGatherState.cc")],
 [], ["output file bytes"])

prop("C13", "Collective helper values are the same correct values on every process",
 "Sum, maximum, minimum, gathered lists and running offsets of per-process values equal the mathematical result over exactly the processes of the communicator the library was given, on each of them, in every call of any sequence of calls; a job in which two groups of processes use the library independently, each on its own communicator, never mixes, blocks or corrupts the other group's work.",
 ["schedules", "inputs", "configurations", "programs"],
 "all communicators (world, split and reordered), values up to the extremes of the type, interleavings of several groups",
 ONE + "on the world communicator; sub-communicators are never used.",
 ["src/CommunicatorMPI.cc", "include/ExSeisDat/PIOL/CommunicatorMPI.hh", "include/ExSeisDat/PIOL/CommunicatorInterface.hh", "src/sort.cc", "src/DataMPIIO.cc"],
 [("one MPI collective per helper on the stored communicator", "src/CommunicatorMPI.cc")],
 [("comm", "communicator of the library object", "include/ExSeisDat/PIOL/CommunicatorMPI.hh")], ["returned values on each rank"])

prop("C14", "4D binning matches each pair of surveys as a serial search would",
 "Comparing two surveys with any number of processes pairs each eligible trace of the first survey with the trace of the second that minimises the position-difference measure, excludes pairs above the limit, and writes two output files of equal trace count in which the n-th traces are partners with the difference recorded, independent of how traces are spread over processes and of one-sided transfer timing. The verbose mode lists the same pairs in its restart files; where these files cannot be written, the result is still produced.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, survey sizes and overlaps including disjoint and empty candidate sets, thresholds, one-sided completion order",
 "The utility has only manual system tests; the cross-process candidate exchange has no automated test at all.",
 ["util/4dcore.cc", "util/4dio.cc", "util/fourdbin.cc", "util/4d.hh"],
 [("bounding boxes decide which ranks' coordinates are fetched through windows", "util/4dcore.cc"), ("non-monotonic block output", "util/4dio.cc")],
 [], ["the two output files"], "block limits of the output loop")

prop("C15", "The copying utilities produce complete, exact copies in any configuration",
 "File concatenation, sorting, replication (repeating the body a given number of times) and generation, run on any number of processes with any block size, leave outputs whose every trace is the specified input trace (or generated value) with the specified trace order and count, and never modify the inputs.",
 ["schedules", "inputs", "configurations"],
 "all rank counts, file sizes, repetition counts, block sizes, schedules",
 "The utilities are exercised only by manual system tests on large data.",
 ["util/makerep.cc", "util/concatenate.cc", "util/segsort.cc", "util/filemake.cc", "util/sglobal.cc"],
 [("piecewise redistribution of the file between ranks", "util/makerep.cc"), ("Set based copy", "util/concatenate.cc, util/segsort.cc")],
 [], ["output file bytes", "exit status"], "block limits")

prop("C16", "Every communication and file resource is released",
 "After the objects of any sequence of library operations are destroyed, successful or failed, no file, view, datatype, window, request, communicator or hint object created by the library is left open, none is used after release or released twice, files opened for the duration of a test are gone, and the communication library is shut down exactly once and only if this library started it.",
 ["programs", "schedules", "fault_sequences"],
 "all operation sequences, including with I/O failures, rank counts, user-managed or library-managed initialisation",
 "The tests never count live handles and one process hides most of the sharing; leaked views or requests have no visible effect there.",
 ["src/DataMPIIO.cc", "src/CommunicatorMPI.cc", "src/sort.cc", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"],
 [("destructors of data, window and option objects", "src/DataMPIIO.cc, include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"), ("initialise/finalise manager", "src/CommunicatorMPI.cc")],
 [], ["census of live handles per rank at the end of the run"])

prop("C17", "The C interface performs exactly what the C++ interface performs",
 "A program using the C interface on any number of processes to read, write, sort, search extremes and run flows gets the same values, the same files and the same errors as the same program written with the C++ interface, with null header and sample arguments meaning the same in both.",
 ["programs", "schedules", "inputs", "configurations"],
 "all call sequences of the C interface with their argument combinations, rank counts and schedules",
 "The C tests use mocks that check forwarding of fixed arguments on one process, not the resulting files and values.",
 ["src/PIOL_C_bindings.cc", "src/Flow/Flow_C_bindings.cc", "include/ExSeisDat/PIOL.h", "include/ExSeisDat/Flow.h"],
 [("thin forwarding with sentinel translation", "src/PIOL_C_bindings.cc")],
 [], ["values and files of a C and a C++ program on the same input"])

prop("C20", "Sample number conversions are exact",
 "Every 32-bit IBM floating-point value converts to the nearest IEEE value, and big-endian conversions of every value round-trip bit-exactly.",
 ["inputs"], "all 2^32 bit patterns", "The tests sample a few values.",
 ["src/utils/encoding/number_encoding.cc", "include/ExSeisDat/utils/encoding/number_encoding.hh"],
 [("bit manipulation", "src/utils/encoding/number_encoding.cc")])
prop("C21", "Header values survive any read, change and write under any rule",
 "When processes read trace headers of a file with any header-field rule (built by any sequence of adding, replacing, merging and removing entries, with or without a copy of the whole header), optionally copy them into structures with another rule, change some values and write them, every header of the new file holds: the value last given to each field of the rule (whole numbers exactly, scaled numbers to the precision the shared scaler allows when all values that share it are to fit, and exactly when they are representable), the unchanged value of every field of a copied header the rule does not name, also where it shares a scaler with fields that are rewritten, and zero elsewhere. Values read, copied or skipped are the file's, entries outside the request stay as they were, and the extent of the rule is that of the bytes it uses.",
 ["programs", "inputs", "histories", "configurations"],
 "all rule edit histories, scalers and header contents, per-rank requests with repeats and skips, contiguous or listed, headers only or with samples, transfer limits, rank counts",
 "The tests use the default rules, a few edits and headers with one scaler; no test shares a scaler between values of different size or checks the fields of a copied header which the rule does not name.",
 ["src/Rule.cc", "src/segy_utils.cc", "src/Param.cc", "src/param_utils.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc"],
 [("rule bookkeeping", "src/Rule.cc"), ("choice of the shared scaler, insertion into and extraction from headers", "src/segy_utils.cc insertParam, extractParam, find_scalar"),
  ("copying between rules", "src/param_utils.cc cpyPrm")],
 [], ["values read and copied on every process", "header bytes of the output file"])
prop("C24", "The reporting utilities state what the files hold",
 "For any input files and any number of processes, the KML export is one complete document with one line per input file, in the order given (also through a list of names), named after the file and running from the file's smallest to its largest source x and y, as longitude and latitude with ten decimals, converted from the given UTM zone and hemisphere (WGS 84) where x is above 180; the trace listing prints, once, the six coordinates and the line numbers stored for the requested trace; the assessment prints sample count, trace count and interval of every matching file. The inputs stay unchanged.",
 ["inputs", "configurations", "schedules"],
 "all rank counts incl. more processes than traces, numbers and lengths of files, signs and sizes of coordinates, zones and hemispheres, processes writing the one document at any relative speed",
 "The reporting utilities have no automated test at all.",
 ["util/segy2kml.cc", "util/traceanalysis.cc", "util/assess.cc", "src/minmax.cc", "src/ReadDirect.cc"],
 [("extremes of the file found by all processes", "util/segy2kml.cc calcMin"), ("conversion and formatting of coordinates", "util/segy2kml.cc utm2LatLong, highPrecStr"),
  ("collective read, one process prints", "util/traceanalysis.cc")],
 [], ["the KML file", "standard output of every process"])
prop("C22", "Single-trace signal operators compute their documented transforms",
 "Tapering, automatic gain control and temporal filtering of a trace give the documented mathematical result for every window, corner and padding setting and never depend on other traces.",
 ["inputs", "configurations"], "all parameters and traces", "The tests compare a few settings.",
 ["src/utils/signal_processing/AGC.cc", "src/utils/signal_processing/Gain_function.cc", "src/temporalfilter.cc"],
 [("per-trace arithmetic", "src/utils/signal_processing, src/temporalfilter.cc")])
prop("C23", "Text headers are decoded whichever character set they are in",
 "The text header is returned in ASCII whether stored in ASCII or EBCDIC, for every text.",
 ["inputs"], "all 3200-byte headers", "Two fixed headers are tested.",
 ["src/ReadSEGY.cc", "src/utils/encoding/character_encoding.cc"],
 [("majority vote of printable characters", "src/ReadSEGY.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
