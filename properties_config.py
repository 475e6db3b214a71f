"""Per-property build and run configuration of the simulators, and the words of their evidence."""

CORE = ["sim/driver.cpp", "sim/heap.cpp", "sim/guard.cpp"]

REAL = "the whole of /repo/include/dspbb that the calls reach (library code compiled unmodified from the working tree), libstdc++, libm"
STUB = "system allocator inside library calls (simulated arena), caller buffers (guarded pages)"

COMMON = [
    "the compiler, libstdc++, libm, xsimd and Eigen behave as specified",
    "x86-64, default instruction set unless the variant says otherwise",
    "sampling: a clean batch is evidence over the runs counted here, not proof",
]


def prop(binary, parts, rule, time=(40, 600), variants=(("base",), ("base", "avx2")), extra=(), core=(), must=(), flags=(), real=REAL, stub=STUB, assumptions=(), cpu_ms=20000, trees=()):
    return {
        "binary": binary,
        "lib_sources": [("w/%s.cpp" % binary, parts)] + list(extra),
        "core_sources": CORE + list(core),
        "flags": list(flags),
        "variants": {"quick": list(variants[0]), "thorough": list(variants[1])},
        "time": {"quick": time[0], "thorough": time[1]},
        "rule": rule,
        "must_reach": list(must),
        "real": real,
        "stub": stub,
        "assumptions": COMMON + list(assumptions),
        "cpu_ms": cpu_ms,
        "trees": list(trees),
    }


CONFIG = {
    "C01": prop("c01", 7,
                "one run = 1-3 seeded streams multiplexed over 1-2 FIR filters, cut into blocks by the seed (fixed, random, tiny, empty, shorter than the filter state), each block sent through convolution or overlap-add, with failed allocations, retries and crash/restart from checkpoints; non-trivial = at least two scheduling steps and one stream completed; distinct = different sequence of (stream, engine, block size) over different stream and filter lengths",
                must=["fault.alloc_failed", "fault.crash_restart", "event.empty_block", "event.block_shorter_than_state"]),
    "C02": prop("c02", 6,
                "one run = 1-3 seeded streams through direct form I/II or cascaded filters of drawn order, fed by sample, by block, in place or through Filter(), in pieces cut by the seed, with sources that fail inside a block, crash/restart from copies, resets and reconfiguration; non-trivial = at least two steps and one stream completed; distinct = different sequence of (stream, method, stall, piece size) for different realizations, orders and lengths",
                must=["fault.source_stalled", "fault.crash_restart", "event.reset", "event.empty_block"]),
}

CONFIG["C03"] = prop("c03", 5,
    "one run = 1-2 seeded streams interpolated through polyphase filters (1-150 taps, factor 1-20, now and then to 2500 taps and 160 phases; filters owned or in caller memory), input arriving and outputs being requested in pieces cut by the seed, each call resumed from the returned position on re-allocated input trimmed to it, with crash/restart from saved positions; non-trivial = at least two calls; distinct = different sequence of (request, retained input) for different lengths, taps and factors",
    must=["fault.crash_restart", "event.empty_request"])

CONFIG["C04"] = prop("c04", 5,
    "one run = 1-2 seeded streams resampled at drawn rational rates (1/40..40, 147/160, 999/1000, 1000003/999983, ...) from drawn rational start points through polyphase filters, input arriving and outputs being requested in pieces cut by the seed, each call resumed from the returned rational position on re-allocated input trimmed to it, with crash/restart from saved positions; non-trivial = at least two calls; distinct = different sequence of (request, retained input) for different lengths, rates, taps and phases",
    must=["fault.crash_restart", "event.empty_request"])

CONFIG["C05"] = prop("c05", 7,
    "one run = one seeded pair of operands whose convolution is assembled from windows (a seeded partition plus extra, empty, full and central ones) computed in seeded order, redelivered, by direct or overlap-add engine with drawn chunk sizes, clearing or accumulating, operands swapped or not, with failing allocations and retries; non-trivial = at least two windows; distinct = different sequence of (window, engine, mode, chunk) for different operand lengths",
    must=["fault.alloc_failed", "fault.window_redelivered", "fault.window_reordered"])

CONFIG["C06"] = prop("c06", 5,
    "one run = a seeded chain of 2-6 stages (FIR, three recursive forms, decimation, expansion, interpolation, resampling, gain) with bounded queues, scheduled step by step by the seed, stages crashing and restarting from saved copies of the library state with redelivered samples, allocations failing in blocks; non-trivial = more blocks than stages; distinct = different chain and sequence of (stage, block size)",
    must=["fault.crash_restart", "fault.samples_redelivered", "fault.alloc_failed", "event.stage_starved_or_blocked"])

CONFIG["C07"] = prop("c07", 5,
    "one run = a seeded history of 10-120 operations (construction, copy, move, swap, insertion, removal, extraction, resizing, writes, conversions) over a pool of signals, root sets and polynomials, with failing allocations, retries and impossible requests; non-trivial = more than three operations; distinct = different sequence of (operation, objects)",
    must=["fault.alloc_failed", "fault.request_refused"])

CONFIG["C13"] = prop("c13", 7,
    "one run = a seeded history of 8-67 constructions, copies, moves, assignments, modifications and destructions of objects of one of 24 types living in individually allocated slots and a growing vector, with failing allocations and hostile reuse of released memory; non-trivial = more than one copy or move; distinct = different sequence of (operation, slot) on different types",
    variants=(("base", "asan"), ("base", "asan", "avx2")),
    must=["fault.alloc_failed"])

SCHED_REAL = REAL + ", thread-local storage, exceptions, C++ static initialisation code of the library"
SCHED_STUB = STUB + "; thread scheduling, mutexes, once-guards, condition variables: simulated (sim/sched.cpp); one thread runs at a time, sequentially consistent memory plus vector clocks for ordering"

CONFIG["C08"] = prop("c08", 0,
    "one run = 1-30 transforms (real/complex, full/half, forward, inverse, round trip, both precisions, related lengths) each run alone in a fresh process for reference, then either called by 2-4 simulated threads preempted by the seed at memory accesses or locks, after a seeded warm-up history, with failing allocations and retries, or as one long history of calls ending in a check of retained memory; non-trivial = at least one preemption (or a history); distinct = different interleaving of different calls",
    variants=(("tsan",), ("tsan",)),
    real=SCHED_REAL, stub=SCHED_STUB,
    must=["fault.alloc_failed", "fault.preemption", "event.retention_history"])

# The catalogue of operations C09-C12 draw from.
OPS = [("w/ops.cpp", 0), ("w/ops_arith.cpp", 7), ("w/ops_stats.cpp", 0), ("w/ops_fft.cpp", 3), ("w/ops_poly.cpp", 0), ("w/ops_gen.cpp", 2),
       ("w/ops_fir.cpp", 5), ("w/ops_iir.cpp", 2), ("w/ops_filter.cpp", 3), ("w/ops_resample.cpp", 0), ("w/ops_measure.cpp", 0), ("w/ops_container.cpp", 0)]

CONFIG["C09"] = prop("c09", 0,
    "one run = 1-5 operations drawn from the catalogue (many differing from each other in one parameter only), each run alone in a fresh process for reference, then called by 2-4 simulated threads on shared read-only inputs and separate outputs, preempted by the seed at memory accesses or synchronisation operations, mostly without warm-up, with a failing allocation; non-trivial = at least one preemption; distinct = different interleaving of different calls",
    variants=(("tsan",), ("tsan",)), time=(60, 600), extra=OPS,
    real=SCHED_REAL, stub=SCHED_STUB,
    must=["fault.preemption", "fault.alloc_failed"])

CONFIG["C10"] = prop("c10", 0,
    "one run = 1-4 operations drawn from the catalogue, each run alone in a fresh process for reference, then 1-8 steps: a call with one drawn allocation failing, with all from a drawn one failing, with all large ones failing, or with each of its allocations failing in turn; repeated and interleaved with untroubled calls; non-trivial = at least one allocation failed; distinct = different sequence of (operation, failure mode)",
    extra=OPS, must=["fault.alloc_failed", "fault.memory_exhausted", "event.allocation_sweep", "event.call_reported_out_of_memory"])

CONFIG["C11"] = prop("c11", 0,
    "one run = either 3-24 variations of one or two operations (differing in one parameter), called in one order in one process and in another order, up to three times over, in another process with other contents and placement of memory; or 1-8 operations drawn from the catalogue (many differing from each other in one parameter only), each run alone in a fresh process with zeroed memory for reference, then a history of 2-24 calls with drawn contents, reuse, alignment and placement of heap memory, buffers and stack between them, in half of the runs with all inputs and objects taking turns at the same addresses, and some calls failing; non-trivial = every run; distinct = different sequence of (operation, failed)",
    time=(60, 600), extra=OPS, must=["fault.memory_contents_changed", "fault.alloc_failed", "event.inputs_share_addresses", "event.histories_compared"])

CONFIG["C12"] = prop("c12", 0,
    "one run = 1-10 calls of 1-4 operations drawn from the catalogue with all inputs read-only and all buffers placed against inaccessible pages or inside poisoned, checked margins at drawn alignments, the simulated heap poisoned and recycled, with failing allocations; non-trivial = every run; distinct = different sequence of (operation, placement)",
    variants=(("base", "asan"), ("base", "asan", "avx2")),
    time=(60, 600), extra=OPS, must=["fault.alloc_failed", "fault.buffers_placed_against_guard_pages"])

CONFIG["C14"] = prop("c14", 0,
    "one run = 1-2 players (mono or stereo, a signal or a callback, 0-3000 samples) on simulated threads over a sound system drawn by the seed (cards, formats, channels, access modes, byte order, period sizes), with the callback thread of the sound layer, its lock and condition variable preempted by the seed, devices refused, underruns, short and failing writes, devices that vanish or cannot drain, stalled devices and failing buffer allocations; non-trivial = at least three thread switches; distinct = different interleaving of different playbacks",
    variants=(("tsan",), ("tsan",)), extra=[("w/c14_play.cpp", 0), ("w/c14_rtaudio.cpp", 0)], core=["w/alsa_sim.cpp"],
    flags=["-I", "w/alsa_stub"], trees=["repo:examples", "w/alsa_stub"],
    real="examples/Tools/PlaySound.cpp, examples/RtAudio (RtAudio with its ALSA backend), the Signal and SignalView containers, compiled unmodified from the working tree",
    stub="the ALSA library and the sound cards behind it: simulated (w/alsa_sim.cpp); " + SCHED_STUB,
    must=["fault.preemption", "fault.alloc_failed", "fault.sound_device_refused", "fault.sound_underrun", "fault.sound_short_write", "fault.sound_write_failed", "fault.sound_device_gone", "fault.sound_drain_failed"])

CONFIG["C15"] = prop("c15", 0,
    "one run = 1-5 loads from 1-3 simulated sound files (0-6000 frames, stereo or not, missing, damaged at a drawn item, shorter than their header says, of unknown length), with failing allocations; non-trivial = every run; distinct = different sequence of (file, outcome)",
    variants=(("base",), ("base", "asan")), extra=[("w/c15_load.cpp", 0)], flags=["-I", "w/sndfile_stub"], trees=["repo:examples", "w/sndfile_stub"], time=(20, 120),
    real="examples/Tools/LoadSound.cpp, the Signal and SignalView containers and Decimate, compiled unmodified from the working tree",
    stub="libsndfile and the files behind it: simulated (w/sndfile_stub, w/c15.cpp); system allocator inside library calls (simulated arena)",
    must=["fault.alloc_failed", "fault.file_cannot_be_opened", "fault.file_truncated", "fault.read_failed"])
