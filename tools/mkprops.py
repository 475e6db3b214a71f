#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place, so they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class _I(str):
    def __add__(self, f):
        return f if f.startswith("examples/") else str(self) + f


I = _I("include/dspbb/")
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": I + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "FIR filtering in blocks equals filtering the stream in one piece",
  "Filtering a stream through an FIR filter block by block, carrying the filter state the library hands back, yields the samples that convolving the whole stream with the filter yields, up to rounding, and never depends on stale buffer contents. This holds for every cut of the stream into blocks (empty, one sample, shorter or longer than the filter), for every choice of direct or overlap-add engine and chunk size per block, and with several streams interleaved over the same filter. A block that fails for lack of memory leaves the carried state as it was, so retrying it, or restarting from a saved copy of the state, continues the same stream.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all block sequences, engines, chunk sizes, interleavings of streams, failing allocations and restarts from checkpoints, over real/complex float/double streams and filters of any length >= 1",
  "The tests filter one fixed signal in one or two fixed block sizes, never through a failing allocation, a restart or mixed engines.",
  ["Filtering/FIR/Filter.hpp", "Math/OverlapAdd.hpp", "Math/Convolution.hpp", "Kernels/Convolution.hpp"],
  [("FirFilter state update and two-part convolution", "Filtering/FIR/Filter.hpp")],
  [("state", "the last taps-1 input samples, carried by the caller between blocks", "Filtering/FIR/Filter.hpp")],
  ["output block and state buffer after each Filter(...) call"])

p("C02", "IIR filtering in pieces follows one difference equation",
  "A recursive filter realization (direct form I, direct form II, cascaded biquads) fed a stream sample by sample, in blocks, in place, through iterators or through the free filtering functions, in any mixture and with empty blocks, produces the output of the filter's difference equation for the whole stream, up to rounding. A source that fails in the middle of a block leaves the state exactly after the samples already consumed; a copy of the state continues the stream independently of the original; a reset makes the realization indistinguishable from a new one.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all cuts, feeding methods, failing sources, state copies (checkpoint/restart), resets and re-configurations, over stable real systems of order 0..12 applied to real or complex streams",
  "The tests compare whole-signal filtering against precomputed outputs; they never cut a stream at arbitrary places, interrupt it, or restart from a copied state.",
  ["Filtering/IIR/Realizations.hpp", "Filtering/IIR/Filter.hpp", "LTISystems/Systems.hpp"],
  [("DirectFormI/DirectFormII/CascadedForm::Feed", "Filtering/IIR/Realizations.hpp"), ("Filter overloads", "Filtering/IIR/Filter.hpp")],
  [("recursive and forward states", "delay line contents between calls", "Filtering/IIR/Realizations.hpp")],
  ["output samples", "output after copies and resets"])

p("C03", "Interpolation can be suspended and resumed anywhere",
  "Interpolating a stream by an integer factor through a polyphase filter in any number of calls, each resumed at the position the previous call returned and given only the input from the returned first sample on, produces every output of the one-shot interpolation (zero-stuffed, filtered and gain-compensated input) exactly once and up to rounding. Every requested output sample is written, whatever the output buffer held before. Input the library says it no longer needs is indeed never needed, and it lets go of input as soon as a filter length has passed.",
  ["schedules", "crash_points", "inputs"],
  "all sequences of input arrivals, output requests (including empty ones) and restarts from a saved position, for any factor, filter length (shorter or longer than the factor) and stream length",
  "One test resumes one fixed interpolation once; the resume arithmetic over partial phases and arbitrary cut points is not sampled.",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"],
  [("Interpolate and its suspension point", "Filtering/Resample.hpp"), ("polyphase decomposition", "Filtering/Polyphase.hpp")],
  [("suspension point", "first input sample still needed and the output offset relative to it", "Filtering/Resample.hpp")],
  ["output buffer", "returned suspension point"])

p("C04", "Rational-rate resampling can be suspended and resumed without drift",
  "Resampling a stream by any rational ratio in any number of calls, each resumed at the rational position the previous call returned and given only the input from the returned first sample on, produces the samples of the one-shot resampling: the polyphase-interpolated signal, linearly interpolated at exactly equally spaced rational instants. Positions are exact, so no number of suspensions makes the output drift, lose or repeat a sample, and input the library lets go of is never needed again.",
  ["schedules", "crash_points", "inputs"],
  "all sequences of input arrivals, output requests (including empty ones) and restarts from a saved position, for any rational ratio, number of phases and filter length, over histories of many suspensions",
  "The tests resume one or two fixed ratios once; drift only shows after many suspensions and at ratios whose positions do not fall on phases.",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp", "Math/Rational.hpp"],
  [("Resample and its suspension point", "Filtering/Resample.hpp"), ("exact rational positions", "Math/Rational.hpp")],
  [("suspension point", "first input sample still needed and the rational output position relative to it", "Filtering/Resample.hpp")],
  ["output buffer", "returned suspension point"])

p("C05", "A convolution can be computed in windows, in any order",
  "Any part of a convolution, requested as an offset and a length, directly or by overlap-add with any admissible chunk size, equals that part of the full convolution up to rounding, whichever operand is longer. So a convolution split into windows computed in any order, repeatedly, by different engines, assembles into the same result; in clearing mode a window overwrites whatever was there, and in accumulating mode it adds exactly its own contribution once. A window that fails for lack of memory has touched nothing outside its own window, and can be recomputed.",
  ["schedules", "fault_sequences", "inputs"],
  "all window partitions and orders, duplicated and failed-then-retried windows, engines, chunk sizes and clearing modes, over operand lengths and sample types",
  "The tests use a handful of offsets and chunk sizes on fixed operands and never accumulate, duplicate or retry windows.",
  ["Math/Convolution.hpp", "Math/OverlapAdd.hpp", "Kernels/Convolution.hpp"],
  [("windowed convolution", "Math/Convolution.hpp"), ("overlap-add chunk loop and window clipping", "Math/OverlapAdd.hpp"), ("slide/reduce kernels", "Kernels/Convolution.hpp")],
  [("output window", "caller-owned accumulator", "Math/OverlapAdd.hpp")],
  ["output window and its surroundings"])

p("C06", "A multi-stage streaming chain survives stalls, crashes and redelivery",
  "A processing chain built from the library (any order of block FIR filtering, recursive filtering, decimation, expansion, interpolation, resampling, gain) that moves samples through bounded queues between independently scheduled stages delivers the same samples as running each stage once over the complete stream. This holds for every scheduling of the stages, with stages crashing at any point and restarting from their last saved state, and with redelivered blocks; every output sample is delivered exactly once and in order, and the chain always finishes once faults stop.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "all chains of 2-6 stages, queue capacities, stage schedules, checkpoints, crash points, redeliveries and failed allocations",
  "No test composes streaming stages, and none saves, loses and restores stage state.",
  ["Filtering/FIR/Filter.hpp", "Filtering/IIR/Realizations.hpp", "Filtering/Resample.hpp", "Filtering/Polyphase.hpp", "Primitives/Signal.hpp"],
  [("state the library hands back to the caller", "Filtering/FIR/Filter.hpp"), ("realization state", "Filtering/IIR/Realizations.hpp"), ("suspension points", "Filtering/Resample.hpp")],
  [("stage state", "everything a stage needs to continue", "Filtering/Resample.hpp")],
  ["the sink's sample sequence"])

p("C07", "Growable signals and root sets behave like sequences, even out of memory",
  "Under any history of construction, assignment, insertion, removal, resizing, swapping, copying and moving, signals behave exactly like the sequence of samples the same operations give on a plain list, and factored polynomials keep exactly their real roots and complex pairs apart from those a resize adds (zeros) or drops (from the end). An operation that fails for lack of memory leaves every object as it was, so that no element is lost, duplicated or leaked, and the operation can simply be repeated.",
  ["histories", "fault_sequences"],
  "all operation histories over several live objects with allocation failures injected at any allocation, for all element types",
  "The tests perform single operations on fresh objects and never fail an allocation.",
  ["Primitives/Signal.hpp", "Primitives/SignalView.hpp", "Math/Polynomials.hpp"],
  [("BasicSignal operations", "Primitives/Signal.hpp"), ("FactoredPolynomial storage and resize", "Math/Polynomials.hpp")],
  [("contents", "samples, real roots and complex pairs", "Math/Polynomials.hpp")],
  ["size, capacity, element values, iterators"])

p("C08", "Transforms sharing a plan cache are correct under any schedule",
  "Fourier transforms called from any number of threads, at any interleaving of their shared plan cache and over any history of more transform lengths than the cache holds, return what they return when called alone, and inverse transforms undo forward ones. The shared state never races, never deadlocks, and retains a bounded number of plans; a transform that fails for lack of memory fails alone, leaving later and concurrent transforms correct.",
  ["schedules", "histories", "fault_sequences"],
  "all thread interleavings at shared-memory accesses and lock operations, all histories of lengths and precisions, failing allocations at any point",
  "The tests are single-threaded and use a few lengths, so eviction, re-entry and contention in the plan cache are never exercised.",
  ["Math/FFT.hpp", "PocketFFT/pocketfft_hdronly.h"],
  [("plan cache with LRU eviction under a mutex", "PocketFFT/pocketfft_hdronly.h"), ("transform entry points", "Math/FFT.hpp")],
  [("plan cache", "16 most recently used plans, access counters, mutex", "PocketFFT/pocketfft_hdronly.h")],
  ["transform results", "live memory after the history"])

p("C09", "Concurrent calls on separate data do not interfere",
  "Any library operations running at the same time on separate outputs and shared read-only inputs (including shared filters, systems and descriptors) return exactly what each returns when run alone. No operation races with another on hidden shared state, at any interleaving, including the very first calls into the library, and no interleaving deadlocks.",
  ["schedules", "programs"],
  "all interleavings of 2-4 threads each running any sequence of operations drawn from the whole public interface",
  "The tests never use a second thread.",
  ["Math/FFT.hpp", "Math/OverlapAdd.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp", "Filtering/Windowing.hpp", "Filtering/MeasureFilter.hpp", "Filtering/Resample.hpp", "Generators/Waveforms.hpp", "Math/Statistics.hpp", "Math/EllipticFunctions.hpp", "Math/Polynomials.hpp", "PocketFFT/pocketfft_hdronly.h"],
  [("no hidden mutable state outside the plan cache", "Math/FFT.hpp"), ("function-local statics initialised once", "PocketFFT/pocketfft_hdronly.h")],
  [("hidden state", "plan cache, function-local statics, namespace-scope constants", "PocketFFT/pocketfft_hdronly.h")],
  ["results of every operation"])

p("C10", "Running out of memory fails one call cleanly",
  "When any allocation inside any library call fails, that call ends by reporting the out-of-memory error to its caller: it never terminates the process, never hangs, never reports anything else or success with a wrong result, never modifies its read-only inputs, and leaks nothing. Repeating the call with memory available gives the result it would have given without the failure, as do all other calls afterwards.",
  ["fault_sequences", "programs", "histories"],
  "every allocation point of every operation of the public interface, single and persistent failures, in sequences of operations",
  "No test makes an allocation fail.",
  ["Math/FFT.hpp", "Math/OverlapAdd.hpp", "Math/Polynomials.hpp", "Primitives/Signal.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp", "Filtering/MeasureFilter.hpp", "Filtering/Resample.hpp", "LTISystems/Systems.hpp", "PocketFFT/pocketfft_hdronly.h"],
  [("ownership by containers and RAII", "Primitives/Signal.hpp"), ("exception-neutral plan cache", "PocketFFT/pocketfft_hdronly.h")],
  [("plan cache", "must not be left with a broken entry", "PocketFFT/pocketfft_hdronly.h")],
  ["exceptions leaving a call, results, live allocations"])

p("C11", "Results depend only on arguments, not on history or memory contents",
  "Every library operation returns bit-for-bit the same result for the same arguments, whatever operations ran before it in the process, whatever freed or fresh memory it is given contained before, and however that memory is placed. No operation changes global process state that other code can observe, such as the floating-point environment, and output buffers are fully overwritten wherever the operation is defined to produce every element.",
  ["histories", "programs", "fault_sequences"],
  "all histories of operations (including failed ones), contents and placement of fresh and recycled heap and stack memory, over the whole public interface",
  "Each test runs from mostly zeroed fresh memory with a fixed short history, so reads of uninitialised or stale memory and hidden state look correct.",
  ["Math/FFT.hpp", "Math/OverlapAdd.hpp", "Math/Convolution.hpp", "Kernels/Numeric.hpp", "Kernels/Convolution.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp", "Filtering/Windowing.hpp", "Filtering/Resample.hpp", "Filtering/MeasureFilter.hpp", "Generators/Waveforms.hpp", "Math/Polynomials.hpp", "Math/Statistics.hpp"],
  [("initialised temporaries and full overwrites", "Primitives/Signal.hpp"), ("pure functions of arguments", "Kernels/Numeric.hpp")],
  [("hidden state", "plan cache, statics, recycled memory", "PocketFFT/pocketfft_hdronly.h")],
  ["result bytes", "floating-point environment"])

p("C12", "No call reads or writes memory outside what it was given",
  "Every library operation reads only the ranges it is given and writes only its output range: it never touches a byte before, after or between them, never writes through a read-only argument, never uses memory after releasing it, and never assumes any alignment or padding of the ranges. This holds for all sizes, including empty ones, those below and just around the vector width, and unaligned sub-ranges of larger buffers, and also while allocations fail.",
  ["inputs", "programs", "fault_sequences"],
  "all sizes, placements (against page boundaries, unaligned), operation sequences and failing allocations over the whole public interface",
  "The tests use comfortably sized heap vectors, where an overrun of a few elements reads or writes slack silently.",
  ["Kernels/Numeric.hpp", "Kernels/Convolution.hpp", "Kernels/Math.hpp", "Math/OverlapAdd.hpp", "Math/FFT.hpp", "Filtering/FIR/Filter.hpp", "Filtering/Resample.hpp", "Filtering/Polyphase.hpp", "Filtering/FIR/BandTransforms.hpp", "Primitives/SignalView.hpp"],
  [("scalar prologue/epilogue around vector loops", "Kernels/Numeric.hpp"), ("interval clipping", "Math/OverlapAdd.hpp")],
  [("caller buffers", "placed against inaccessible pages", "Kernels/Numeric.hpp")],
  ["memory accesses"])

p("C13", "Copies are independent and moves transfer everything",
  "For every object type the library offers (signals, polynomials, root sets, rational numbers, transfer functions, zero-pole systems, biquad cascades, filter realizations, polyphase filters, intervals), a copy is equal to its source and stays so whatever happens to the source afterwards, including its destruction, and conversely; a move transfers the value and leaves a source that shares nothing with it and can be destroyed or assigned. Assignments return the object assigned to, and copying an object onto itself changes nothing; a copy that fails for lack of memory leaves its source intact and its target a valid object.",
  ["histories", "fault_sequences"],
  "all histories of construction, copying, moving, assigning, mutating and destroying objects of all types, with failing allocations and hostile reuse of released memory",
  "The tests copy a few objects once; aliasing, dangling views and assignment return values only show in longer histories with the source changed or destroyed.",
  ["Filtering/Polyphase.hpp", "Math/Polynomials.hpp", "LTISystems/Systems.hpp", "Filtering/IIR/Realizations.hpp", "Primitives/Signal.hpp", "Math/Rational.hpp", "Utility/Interval.hpp"],
  [("PolyphaseFilter copy/move re-anchoring its view", "Filtering/Polyphase.hpp"), ("FactoredPolynomial copy/move re-anchoring its ranges", "Math/Polynomials.hpp")],
  [("owned buffers and views into them", "must point into the object's own storage", "Filtering/Polyphase.hpp")],
  ["values read back from copies, moved-to objects and sources"])

p("C14", "Playing a signal presents exactly its samples, once, and waits for the end",
  "Playing a mono or stereo signal, or the signal a callback provides, presents to the sound device exactly its samples, in order, each once and on the right channels (converted to the device's sample format and layout to within one step), followed only by silence up to the end of the period. The call returns after everything the device accepted has been played, with the device released and without calling the callback again, for every interleaving of the calling thread with the audio thread and with other players. A device that cannot be opened, configured or started, or lack of memory for its buffers, is reported as an error before anything is played; underruns, short or failing writes and a device that vanishes or cannot drain cost at most the periods concerned, and never hang or crash the program.",
  ["schedules", "fault_sequences"],
  "all interleavings of callers and audio threads, sound systems (formats, channels, layouts, byte orders, period sizes, timing) and failures of the sound system, over signals of any length",
  "The examples are not tested at all; the hand-over between the calling thread and the audio thread, the end of the stream and device failures cannot be reached without a sound system under control.",
  ["examples/Tools/PlaySound.cpp", "examples/RtAudio/RtAudio.cpp"],
  [("callback wrappers and the wait for the end of the stream", "examples/Tools/PlaySound.cpp"), ("RtApiAlsa::callbackEvent, stopStream, closeStream", "examples/RtAudio/RtAudio.cpp")],
  [("stream_.state, runnable, isRunning", "shared between the caller and the audio thread", "examples/RtAudio/RtAudio.cpp")],
  ["frames accepted and played by the simulated device; return or exception of the call"])

p("C15", "Loading a sound file yields exactly its samples, or an error",
  "Loading a stereo sound file yields its left and right channels with every sample in place and its sample rate, for any length including none. A file that is missing, is not stereo, cannot be read to its end or is shorter than its header says, or lack of memory, is reported as an error, never turned into silence or a crash; the file is closed again in every case.",
  ["fault_sequences", "inputs"],
  "all files (length, channels, rate), read failures at any point, truncations and failing allocations",
  "The examples are not tested at all; damaged files and failing reads need a file system under control.",
  ["examples/Tools/LoadSound.cpp", "Filtering/Resample.hpp"],
  [("reading and splitting the channels", "examples/Tools/LoadSound.cpp")],
  [],
  ["the loaded channels, or the exception"])

PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history in it, so simulating it would only be input generation; "
NA = {}
def na(id, title, statement, files, reason):
    p(id, title, statement, ["inputs"], "all admissible inputs", "The tests compare a few fixed inputs.", files, [("implementation", files[0])])
    NA[id] = reason
na("N01", "The transforms are the discrete Fourier transform",
   "The forward transform of a signal is its discrete Fourier transform, the half spectrum of a real signal is the non-redundant part of its full spectrum, and spectrum shifting and its inverse cancel for every length.",
   ["Math/FFT.hpp"], PURE + "what depends on the shared plan cache, its history and its failures is claimed as C08")
na("N02", "FIR designs meet their descriptions",
   "Every designed FIR filter (windowed, least-squares, arbitrary response, Hilbert; all band types) has the requested length, symmetry, band edges and gain.",
   ["Filtering/FIR.hpp", "Filtering/FIR/Windowed.hpp", "Filtering/FIR/LeastSquares.hpp", "Filtering/FIR/BandTransforms.hpp"], PURE + "its thread, allocation, history and memory behaviour is covered by C09-C12")
na("N03", "IIR designs meet their descriptions",
   "Every designed recursive filter (Butterworth, Chebyshev I and II, elliptic; all band types) is stable, has the requested order and meets its ripple, attenuation and band edges.",
   ["Filtering/IIR.hpp", "Filtering/IIR/BandTransforms.hpp", "Filtering/IIR/Elliptic.hpp", "Filtering/IIR/Chebyshev.hpp"], PURE + "its thread, allocation, history and memory behaviour is covered by C09-C12")
na("N04", "System representations describe the same system",
   "Converting a system between transfer function, zero-pole and biquad-cascade forms, and between continuous and discrete time, preserves its response.",
   ["LTISystems/Systems.hpp", "LTISystems/DiscretizationTransforms.hpp", "Math/RootTransforms.hpp"], PURE + "running streams through the representations is part of C02")
na("N05", "Polynomial and rational arithmetic is exact or accurate",
   "Rational numbers obey exact arithmetic and ordering in lowest terms, and polynomial evaluation, expansion and arithmetic match their definitions.",
   ["Math/Rational.hpp", "Math/Polynomials.hpp"], PURE + "exact rational positions across suspensions are part of C04")
na("N06", "Elementwise arithmetic and functions act per sample",
   "Elementwise arithmetic, math functions and reductions on signals of any length and alignment give the per-sample or mathematically defined result.",
   ["Primitives/SignalArithmetic.hpp", "Math/Functions.hpp", "Kernels/Numeric.hpp"], PURE + "memory confinement and placement independence are C11 and C12")
na("N07", "Statistics match their definitions",
   "Moments, variances, norms, covariance and correlation match their mathematical definitions for all inputs.",
   ["Math/Statistics.hpp"], PURE.rstrip("; "))
na("N08", "Window functions match their definitions",
   "Every window function has its documented shape, symmetry and gains at every length.",
   ["Filtering/Windowing.hpp"], PURE.rstrip("; "))
na("N09", "Elliptic functions match their definitions",
   "The elliptic integrals, Jacobi elliptic functions and their inverses are accurate over their domains.",
   ["Math/EllipticFunctions.hpp"], PURE.rstrip("; "))
na("N10", "Generated waveforms match their definitions",
   "Sine, sawtooth, pulse, chirp and spaced-grid generators produce their waveform at every frequency, phase and length.",
   ["Generators/Waveforms.hpp", "Generators/Spaces.hpp"], PURE.rstrip("; "))
na("N11", "Filter measurement classifies and measures responses correctly",
   "Measuring a response identifies its band type and reports its ripple, attenuation and band edges.",
   ["Filtering/MeasureFilter.hpp"], PURE.rstrip("; "))
na("N12", "Invalid parameters are rejected",
   "Descriptors with unsorted, out-of-range or inconsistent parameters are rejected with an error instead of producing a filter.",
   ["Filtering/FIR/Descs.hpp", "Filtering/IIR/Descs.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp"], PURE.rstrip("; "))

LEVEL = {
 "C01": "Seeded search over block cuts, engines, stream interleavings, failed allocations and checkpoint restarts; every output compared with an extended-precision whole-stream convolution within a rounding bound.",
 "C02": "Seeded search over cuts, feeding methods, failing sources, copies and resets; every output compared with an extended-precision difference equation within a rounding bound.",
 "C03": "Seeded search over input arrivals, output requests and restarts; every output compared with extended-precision interpolation of the whole stream; discarded input is made inaccessible.",
 "C04": "Seeded search over input arrivals, output requests and restarts; every output compared with resampling evaluated at exact rational positions in extended precision; discarded input is made inaccessible.",
 "C05": "Seeded search over window partitions, orders, duplicates, engines, modes and failed allocations; result and surroundings compared with an extended-precision convolution.",
 "C06": "Seeded search over chains, stage schedules, queue sizes, crashes, restarts and redeliveries; delivered stream compared with an extended-precision run of each stage over the whole stream; bounded progress after faults stop.",
 "C07": "Seeded search over operation histories with failing allocations; checked step by step against list models, with leak and ownership checks.",
 "C08": "Real threads parked and released one at a time at every instrumented access and lock operation; seeded schedules; results compared bitwise with solo runs and with an extended-precision DFT, happens-before race detection, deadlock, allocation-failure and retention checks.",
 "C09": "Real threads parked and released one at a time; seeded schedules over an operation catalogue covering the public interface; results compared bitwise with solo runs in a fresh process, with happens-before race detection and deadlock detection.",
 "C10": "Seeded search over operation sequences with a failing allocation at a drawn point (the catalogue covers the public interface); leak, unchanged-input, error-class and retry checks.",
 "C11": "Seeded search over operation histories and memory contents/placement; results compared bitwise with a fresh process's, floating-point environment checked.",
 "C12": "Seeded search over operations with all buffers against inaccessible pages plus an AddressSanitizer build with the simulated heap poisoned; any stray access is the violation.",
 "C13": "Seeded search over object histories with failing allocations and hostile memory reuse; checked step by step against value models.",
 "C14": "The example's player and RtAudio's ALSA backend run unmodified on simulated threads over a simulated sound system; seeded schedules, devices and device failures; what the device was given and played is compared with the signal; deadlock, hang, leak and handle checks.",
 "C15": "The example's loader runs unmodified over simulated sound files; seeded files, damage, read failures and failing allocations; result compared with the file.",
}
TECH = "deterministic simulation with fault injection: "
TECHS = {
 "C14": TECH + "seeded thread-interleaving simulation over a simulated sound system with device faults, history checks of what was presented and played",
 "C15": TECH + "seeded files, read failures and allocation failures over simulated storage, exact oracle",
 "C08": TECH + "seeded thread-interleaving simulation, allocation faults, happens-before race detection, reference DFT",
 "C09": TECH + "seeded thread-interleaving simulation, happens-before race detection, solo-run oracle",
 "C10": TECH + "seeded allocation-failure injection, retry/leak oracle",
 "C11": TECH + "seeded memory-content and history perturbation, fresh-process oracle",
 "C12": TECH + "seeded workloads and allocation faults over guarded and poisoned memory",
}
import sys
sys.path.insert(0, V)
from properties_config import CONFIG
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, nas = [], [{"property": k, "reason": v} for k, v in NA.items()]
for q in P:
    i = q["id"]
    if i in NA:
        continue
    if i not in CONFIG:
        nas.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": TECHS.get(i, TECH + "seeded schedules and faults against a reference model"), "level": "exploration",
                   "level_note": LEVEL[i] + " Sampling, not proof; trusts compiler, libstdc++, libm, xsimd, Eigen and the simulator."})
m = {"version": 1, "setup_cmd": "python3 check.py build all", "checks": checks, "not_applicable": nas,
     "notes": "No hooks in /repo: the library is header-only, so its seams (allocator, caller buffers, callbacks, threads through instrumentation of the translation units) are all reachable from the harness. Replay a violation with: python3 check.py replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
