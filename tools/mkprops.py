#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than raw JSON lines)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOIO = "No test opens a WAV or Netpbm file at all; a unit test would sample one chunking, one errno and one instant, on a real disk that almost never fails."

# ---------------------------------------------------------------- audio files
prop("C01", "A finished WAV file returns exactly what was written, however I/O is split",
 "After a WAV writer has been destroyed, the file is a well-formed RIFF/WAVE file of the requested format whose size fields match what was written, and a reader of that file is good, reports the same sample rate, channel count and sample depth (8- or 16-bit integer, or 32-bit float for every other requested depth) and the exact number of frames written (or -1 when none were), and returns every frame in order: float samples bit-exact, integer samples rounded to the nearest representable level after clipping to the format's range, silence as exactly zero. "
 "This holds for every way the frames are split over write and silence calls on one side and read and skip calls on the other, for every stride (elements between the strides are neither read nor written), and for every splitting or interruption of the underlying system calls. "
 "While nothing has failed, good() stays true on both sides until a read goes past the last frame.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every rate and channel count whose byte rate the header can hold (below 2^31), depth, element type, sequence of write/silence/read/skip calls, stride, and every sequence of short or interrupted (EINTR) reads and writes",
 NOIO, ["wav.hh", "pcm.hh"],
 [("little-endian sample codec, scale/offset/clip", "wav.hh writeLE/readLE, write, read, silence"), ("header written at open and patched at destruction", "wav.hh WriteWAV constructor/destructor"), ("header validation", "wav.hh ReadWAV constructor")],
 ["ReadPCM/WritePCM virtual interface", "bytes on the simulated disk"])

prop("C02", "A WAV recording killed at any instant is still readable up to what was stored",
 "If the writing process dies at any point - before, during or after any of its writes, including while the header is being finalised on destruction - then the file left behind is either still shorter than its header, or a reader accepts it with the correct rate, channels and depth and returns exactly the whole frames whose bytes reached the file, bit for bit, in order. "
 "The reader reports the number of frames as -1 (unknown) unless finalisation was complete, in which case it is exact. "
 "Restarting and recording again to the same file name leaves no trace of the dead recording.",
 ["crash_points", "inputs", "configurations", "histories"],
 "every recording, every crash point at or inside any system call of the writer (torn 4-byte header patches included), then restart",
 NOIO, ["wav.hh"],
 [("size fields start as 'unknown' (-1) and are patched last, little-endian, in an order that keeps every intermediate header acceptable", "wav.hh WriteWAV constructor/destructor"), ("non-positive sizes accepted as unknown length", "wav.hh ReadWAV constructor")],
 ["bytes on the simulated disk at the crash", "ReadPCM interface after restart"])

prop("C03", "WAV write failures are reported, stick, and do not ruin what was stored",
 "As soon as the storage has refused to open the file or to take data (disk full, I/O error), the WAV writer's good() is false at the end of that call and of every later one; if the storage has refused nothing, good() is true. "
 "Frames stored before the first refused byte remain readable with the right format after the writer is destroyed, the frame count a reader reports is -1 or exactly the stored number, and with a persistent failure (full or dead disk) nothing but a prefix of the recording is in the file. "
 "Writing to a sink that cannot seek (a pipe) delivers the header with sizes left unknown followed by exactly the frames written, and nothing else.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "every recording and every sequence of open failures, ENOSPC/EIO errors (transient or persistent, with or without partial writes), seek failures, short writes and EINTR",
 NOIO, ["wav.hh"],
 [("stream state is the only error channel and is never cleared", "wav.hh WriteWAV good/write/silence/destructor")],
 ["WritePCM good()", "bytes on the simulated disk", "ReadPCM interface"])

prop("C04", "WAV read failures and missing data are reported, never returned as samples",
 "If good() is true after a WAV read call, every sample that call delivered is the stored one; if the storage failed (open error, I/O error) or ended before the requested frames (truncated file), good() is false after the call that met it and after every later call. "
 "Frames stored before the failure or the end of data are all delivered with good() true when read one at a time. "
 "Skipping on a source that cannot seek makes good() false or skips all the same. "
 "A read never writes outside the requested elements of the caller's buffer, failing or not, and never hangs or crashes.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "every stored file, truncation point, read/skip history, and sequence of open, read and seek failures, short reads and EINTR",
 NOIO, ["wav.hh"],
 [("sticky stream state exposed through good()", "wav.hh ReadWAV good/read/skip/readLE")],
 ["ReadPCM good()", "caller's buffers with guard zones"])

prop("C05", "A damaged WAV header is detected or harmless",
 "For any damage to the stored header of a WAV file, opening and reading it neither crashes nor hangs, and a header that is not a complete supported WAV header makes good() false. "
 "When a single byte of the header of a finished recording is damaged, the reader either is not good, or reports the true rate, channels, depth and the true number of frames (or -1) and delivers the true samples.",
 ["fault_sequences", "inputs", "configurations"],
 "every finished or unfinished recording and every sequence of stored-byte corruptions (bit flips, overwritten fields, torn or zeroed blocks) of its header; single-byte damage for the second sentence",
 NOIO, ["wav.hh"],
 [("cross-checks between redundant header fields", "wav.hh ReadWAV constructor"), ("rejected header leaves the reader not good", "wav.hh ReadWAV good")],
 ["ReadPCM good(), rate(), channels(), frames(), bits()", "samples returned"])

prop("C06", "A WAV file can be opened and read while it is still being recorded",
 "A reader that opens a WAV file at any moment while another thread or process is still recording or finalising it is either not good, or reports the correct rate, channels and depth and returns, for as long as good() is true, exactly the frames recorded, in order, from the first one. "
 "Its frame count is -1 or the final number of frames. "
 "Once the whole header is stored and until finalising begins, a reader that is opened is good, and a read delivers with good() true when the frames it asks for were stored before it began. "
 "The concurrent readers never affect what is finally stored.",
 ["schedules", "inputs", "histories", "configurations"],
 "every interleaving, at system-call granularity, of one recorder and several readers, with short reads and writes",
 NOIO + " No test runs two threads.", ["wav.hh"],
 [("append-only data, header patched only at the end and in a safe order", "wav.hh WriteWAV"), ("size cross-check rejects half-patched headers", "wav.hh ReadWAV constructor")],
 ["ReadPCM interface of every concurrent reader", "bytes finally on the simulated disk"])

# ---------------------------------------------------------------- image files
prop("C07", "A Netpbm image read back is the image written, however I/O is split",
 "After a Netpbm writer given all its pixels has been destroyed, a reader of the file is good and reports the same width, height and gray/colour kind, and every channel value it returns is the written linear intensity clipped to 0..1 and rounded to the nearest code of the sRGB-encoded scale 0..maxval (1 <= maxval <= 255); re-writing what was read reproduces the file's pixel bytes exactly. "
 "This holds for every split of the pixels over write and read calls, every stride (elements between strides untouched), every splitting or interruption of system calls, and every process-wide locale. "
 "Headers with comment lines and any mix of blanks, tabs and newlines between the fields, as other programs write them, are read the same way.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every image, kind, maxval, call splitting, stride, header layout, global locale, and sequence of short or interrupted reads and writes",
 NOIO, ["netpbm.hh", "pel.hh"],
 [("sRGB encode/decode", "netpbm.hh srgb/linear"), ("header formatter and parser", "netpbm.hh constructors")],
 ["ReadPEL/WritePEL virtual interface", "bytes on the simulated disk"])

prop("C08", "An interrupted Netpbm write loses only the unwritten tail, and says so",
 "If the process dies at any instant, or the storage fails, while a Netpbm image is written, the file contains a prefix of the image file (with a transient storage error: at least everything before the first refused byte), and a reader returns exactly the stored whole pixels and then stops being good. "
 "As soon as the storage has refused to open the file or to take data, good() of the writer is false at the end of that call and for ever after; if it has refused nothing, good() is true.",
 ["crash_points", "fault_sequences", "inputs", "configurations"],
 "every image, crash point at or inside a system call, and sequence of open failures, ENOSPC, EIO, short writes and EINTR",
 NOIO, ["netpbm.hh"],
 [("purely sequential output; sticky stream state", "netpbm.hh WritePNM")],
 ["WritePEL good()", "bytes on the simulated disk", "ReadPEL interface"])

prop("C09", "Netpbm read failures and bad headers are reported, never returned as pixels",
 "If good() is true after a Netpbm read call, every value delivered is that of a stored pixel; a storage failure or the end of a truncated file makes good() false after the call that met it and for ever after, and pixels stored before it are all delivered. "
 "A file that does not start with a complete, supported header (P5 or P6, three numbers, maxval 1..255) makes good() false, and no damage to the stored header makes opening or reading crash, hang or write outside the requested elements.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "every stored image, truncation point, header corruption, read history and sequence of open and read failures, short reads and EINTR",
 NOIO, ["netpbm.hh"],
 [("sticky stream state exposed through good()", "netpbm.hh ReadPNM good/read"), ("header parser", "netpbm.hh ReadPNM constructor")],
 ["ReadPEL good()", "caller's buffers with guard zones"])

# ---------------------------------------------------------------- threads, restarts, reuse
prop("C10", "Objects and functions used by different threads do not affect each other",
 "Threads that each use their own objects of this library and call its functions on their own data obtain, under every interleaving and preemption in the middle of calls, bit for bit the results each would obtain running alone. "
 "No external locking is needed: there is no data race between them.",
 ["schedules", "histories", "programs"],
 "every preemptive interleaving (switches possible at every memory access of the library) of two to four threads running any mix of the library's stream processors, transforms, estimators, containers and functions",
 "Every test is single-threaded with one object at a time, so hidden shared state (a static scratch buffer, a memo, a lazily filled table) is invisible to them.",
 ["fft.hh", "fdzp.hh", "resampler.hh", "spline.hh", "quick.hh", "theil_sen.hh", "repeated_median.hh", "regression.hh", "sma.hh", "swa.hh", "movext.hh", "delay.hh", "bip_buffer.hh", "deque.hh", "stack.hh", "kahan.hh", "ema.hh", "biquad.hh", "blockdc.hh", "normalize.hh", "phasor.hh", "cdc.hh", "hilbert.hh", "fmd.hh", "amd.hh", "lms.hh", "trigger.hh", "calculus.hh", "coeffs.hh", "window.hh", "filter.hh", "unit_circle.hh", "atan2.hh", "exp.hh", "decibel.hh", "cordic.hh", "utils.hh", "complex.hh", "const.hh"],
 [("all mutable state lives in the objects or on the stack; statics are constants", "every header")],
 ["results of every call", "memory accesses of the instrumented library code"])

prop("C11", "A copied processor resumes exactly where it was",
 "A copy of any processor, container, transform or estimator of this library, taken between any two operations of any history, continues exactly like the original: fed the same operations it produces bit for bit the same results, whether it was made by copy construction or by assignment over an object with another history, and whether or not the original is used, overwritten or destroyed in between. "
 "So a task that crashes and restarts from its last checkpoint and replays its input since then produces exactly the uninterrupted output.",
 ["crash_points", "histories", "configurations"],
 "every component, history, set of checkpoints, crash points and restores",
 "The tests never copy an object or resume from a copy.",
 ["bip_buffer.hh", "delay.hh", "deque.hh", "stack.hh", "sma.hh", "swa.hh", "movext.hh", "kahan.hh", "ema.hh", "biquad.hh", "blockdc.hh", "normalize.hh", "phasor.hh", "cdc.hh", "hilbert.hh", "fmd.hh", "amd.hh", "lms.hh", "trigger.hh", "calculus.hh", "resampler.hh", "spline.hh", "fft.hh", "fdzp.hh", "theil_sen.hh", "repeated_median.hh", "regression.hh", "coeffs.hh"],
 [("value-type objects: indices instead of pointers, no statics", "every class")],
 ["results of every call before and after a restore"])

prop("C12", "Reused transforms and estimators carry nothing over from earlier calls",
 "The result of a call to a transform (FFT, real FFT, zero-padding interpolator, block resampler), an estimator (Theil-Sen, repeated median) or a spline, filter or window evaluator depends only on how the object was constructed and on the arguments of that call. "
 "After any history of other calls - different data, different lengths, failed measurements full of infinities, or calls on behalf of other users of the object - it is bit for bit the result of the same call on a freshly constructed object, and the caller's input arrays are left untouched.",
 ["histories", "fault_sequences", "inputs"],
 "every history of calls on one object, including corrupted input blocks and lengths above and below the previous one",
 "No test reuses a transform or an estimator (none is tested at all).",
 ["fft.hh", "fdzp.hh", "resampler.hh", "theil_sen.hh", "repeated_median.hh", "spline.hh", "coeffs.hh", "window.hh", "filter.hh", "regression.hh"],
 [("scratch arrays are rewritten before use in every call", "fdzp.hh tmp, theil_sen.hh temp_, repeated_median.hh inner_/outer_")],
 ["results of every call", "caller's input arrays"])

# ---------------------------------------------------------------- stream processors
prop("C13", "Moving windows always describe exactly the last N samples",
 "After every finite sample of every history, a delay line of length N returns the sample from N samples ago (its initial value before that), the contiguous history buffer shows the last N samples oldest first (zeros before the start) through whichever accessor, a sliding-window reduction with a commutative, associative operation and a neutral initial value (or any initial value, if the operation is idempotent) returns the reduction of the last N samples and the initial value where there are fewer, the moving minimum and maximum return the extreme of the last N samples received so far, and the four moving averages (or their unscaled sums, and the absolute deviation) describe the last N samples, exactly for integers and within rounding for floating point. "
 "This holds for every N >= 1, for repeated, equal, extreme and adversarially ordered values, across any number of wrap-arounds, and across crashes with restore from a checkpoint.",
 ["histories", "inputs", "configurations", "crash_points"],
 "every sample history, window length, element type, and sequence of checkpoints and restores",
 "movext_test compares the integer moving extremes with the sliding-window reduction on uniformly random ints (almost never equal or structured); delay lines, history buffers and averages have no test.",
 ["delay.hh", "bip_buffer.hh", "swa.hh", "sma.hh", "movext.hh", "stack.hh", "kahan.hh"],
 [("circular write positions", "delay.hh, bip_buffer.hh, sma.hh SMA1"), ("reduction tree", "swa.hh"), ("two-stack queue with pop on equality", "movext.hh")],
 ["return value of every call"])

prop("C14", "The fixed-size queue and stack behave like unbounded ones until full",
 "For every history of pushes, pops, peeks, clears and copies that stays within capacity, the double-ended queue and the stack return exactly what an ideal deque and stack would, including size, capacity, empty and full, and the stack's first element. "
 "This holds for every capacity >= 1, at the empty and full boundaries, across any number of wrap-arounds, and for copies of a container, which from then on live independently.",
 ["histories", "configurations", "crash_points"],
 "every operation history, capacity and copy/restore point",
 "deque_test samples random histories without clear, full, max_size after filling, or copies; the stack has no test of its own.",
 ["deque.hh", "stack.hh"],
 [("head/tail/count with wrap-around", "deque.hh"), ("position index", "stack.hh")],
 ["return value of every call"])

prop("C15", "Finite-memory processors forget a disturbance completely",
 "A burst of arbitrarily wrong finite samples (spikes, dropouts, stuck values, lost or repeated samples) fed to a delay line, history buffer, sliding-window reduction, moving average of the direct, tree or integer kind, moving extreme, differentiator, Hilbert transformer, complex down-converter, sample-by-sample resampler or FM demodulator has no effect at all once its memory has been refilled: after as many clean samples as its window, taps or order, its outputs are bit for bit those of an instance that never saw the disturbance (within rounding for floating-point averages and reductions when samples were lost or repeated, because the window then lies differently in memory; wrong values only, none lost, for the down-converter and the resampler). "
 "Recursive processors (exponential averages and cascades, DC blocker, biquads and cascades, signal normalisers, AM demodulator) converge back to the undisturbed output within a bounded number of clean samples set by their time constant (normalisers and AM demodulator: for a steady clean signal).",
 ["fault_sequences", "histories", "configurations"],
 "every clean signal, every sequence of disturbance bursts, and every configuration of the processor",
 "Nothing tests any of these processors except the moving extremes, and those never with a disturbed and an undisturbed instance side by side.",
 ["delay.hh", "bip_buffer.hh", "swa.hh", "sma.hh", "movext.hh", "calculus.hh", "hilbert.hh", "cdc.hh", "resampler.hh", "fmd.hh", "ema.hh", "biquad.hh", "blockdc.hh", "normalize.hh", "amd.hh"],
 [("finite history without feedback", "hilbert.hh, cdc.hh, resampler.hh, sma.hh, swa.hh, fmd.hh"), ("contracting recursion", "ema.hh, biquad.hh, blockdc.hh, normalize.hh, amd.hh")],
 ["outputs of a disturbed and an undisturbed instance"])

prop("C16", "The streaming resampler follows a drifting sample clock without losing its place",
 "For every sequence of clock-offset estimates below half the sampling rate, the sample-by-sample resampler emits zero, one or two outputs per input, never writes more outputs than it reports, and after any number of inputs the outputs emitted minus the inputs consumed equals the accumulated relative clock offset of the emitted outputs to within one sample plus one step - no slip ever accumulates. "
 "Each output is the windowed-sinc-interpolated input at the corresponding fractional position: a tone comes out at the clock-corrected phase with the filter's gain.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every input signal and every history of clock skew, drift and jumps within the stated range, for every tap count and oversampling",
 "The resampler has no test; slips accumulate only over long histories and particular drift patterns (sign changes, position near a half).",
 ["resampler.hh", "spline.hh", "window.hh", "kahan.hh", "utils.hh"],
 [("fractional position kept in (-0.5, 0.5] by skipping or repeating", "resampler.hh Resampler2 operator()")],
 ["return value and output samples of every call"])

prop("C17", "The oscillator never drifts in amplitude and never jumps in phase",
 "For every history of retuning (by fraction of a turn, by angular step or by normalised frequency), resets and outputs of any length, every output of the oscillator has magnitude 1 to within a few rounding errors, and its phase advances from output to output by exactly the step in force when the sample was taken, to within rounding per step. "
 "Retuning is phase-continuous, and the first output after a reset is exactly 1.",
 ["histories", "configurations", "crash_points"],
 "every history of retunes, resets, outputs and checkpoint/restore, for single and double precision",
 "The oscillator has no test; amplitude drift is visible only after very many samples.",
 ["phasor.hh", "unit_circle.hh", "complex.hh"],
 [("renormalisation after every step", "phasor.hh operator()")],
 ["return value of every call"])

prop("C18", "Triggers fire exactly once per transition and ignore noise inside the band",
 "For every history of samples, the Schmitt trigger is on after a sample above its high threshold, off after one below its low threshold, and otherwise (inside or on the band, or not a number) unchanged. "
 "The rising-edge and falling-edge triggers fire exactly on the samples where their input differs from the previous one in that direction - once per transition, alternately - starting from the given initial state.",
 ["histories", "fault_sequences", "configurations"],
 "every sample history (noise bursts, plateaus on the thresholds, spikes up to infinity, readings that are not numbers), threshold pair, initial state, and checkpoint/restore",
 "The triggers have no test.",
 ["trigger.hh"],
 [("stored previous state", "trigger.hh")],
 ["return value of every call"])

prop("C19", "Compensated sums do not drift",
 "For every history of inputs, the compensated running sum (and the compensated moving average, whose window passes through bursts of any finite dynamic range) stays within a few rounding units of the largest sum that occurred, plus at most one rounding unit of each term, of the exactly computed sum - the error of plain summation, which grows with the number of samples times the size of the sum, does not occur; adding a value that changes nothing is reported as such, and summing a range equals feeding it one by one. "
 "The accuracy survives checkpoint and restore.",
 ["histories", "inputs", "crash_points"],
 "every history of finite inputs up to the explored length, with bursts of high dynamic range, for single and double precision",
 "kahan_test sums one fixed series and nothing else.",
 ["kahan.hh", "sma.hh", "delay.hh"],
 [("compensation term protected from reassociation", "kahan.hh operator()")],
 ["return value of every call"])

prop("C20", "The adaptive filters fit the current sample and re-converge after disturbances",
 "At every step the normalised LMS filters (real and complex) return the desired value minus the output of the filter before its update on the last N inputs, and then move the coefficients so that with step size mu the error on those same inputs shrinks by exactly the factor 1-mu (unchanged, and never undefined, when those inputs are all zero), moving them along those inputs only. A new filter's coefficients are zero, and its step size is one where none is given. "
 "Driven by a noise-free N-tap system with white exciting input and a step size between 0.3 and 1.5, the error returns to rounding level within a bounded number of samples after any finite burst of wrong samples or any change of the system stops.",
 ["histories", "fault_sequences", "configurations"],
 "every input and desired history of zero or normal magnitude, step size between 0 and 2, filter length, disturbance burst, system change and dropout",
 "The adaptive filters have no test.",
 ["lms.hh", "bip_buffer.hh"],
 [("power-normalised gradient step", "lms.hh"), ("zero-power guard", "lms.hh")],
 ["returned error", "exposed coefficients"])

prop("C21", "The AM demodulator's gain stays within limits and recovers after any burst",
 "For every input history the demodulator's output corresponds to the input amplitude divided by a level that never leaves the configured limits, follows larger amplitudes with the attack rate and smaller ones with the decay rate, and maps an amplitude at that level to 1 and one dipped to (1-index)/(1+index) of it to -1, linearly in between, for the set modulation index. "
 "After any burst or dropout of the carrier the level returns to the carrier's within a bounded number of samples, and every output is finite.",
 ["histories", "fault_sequences", "configurations"],
 "every amplitude history, carrier loss and burst, and attack/decay/limit/index setting",
 "The AM demodulator has no test.",
 ["amd.hh", "utils.hh", "complex.hh"],
 [("clamped moving level", "amd.hh operator()")],
 ["return value of every call"])

prop("C22", "FM demodulators report each phase step once and recover from carrier loss",
 "For every sequence of carrier samples the first three FM demodulators return the phase step from the previous sample, wrapped to half a turn and divided by half the configured bandwidth in turns, whatever the amplitudes; the fourth and fifth return its small-angle (sine, and averaged central-difference sine) form for constant amplitude. "
 "After lost carrier, spikes or phase jumps the result is right again from the second (fifth demodulator: third) good sample on, and the steps reported between any two samples add up to the phase travelled.",
 ["histories", "fault_sequences", "configurations"],
 "every carrier history with phase steps up to half a turn, amplitude changes, carrier losses, spikes and phase jumps",
 "The FM demodulators have no test.",
 ["fmd.hh", "complex.hh", "const.hh"],
 [("previous sample kept; wrap-around of the difference", "fmd.hh")],
 ["return value of every call"])

prop("C23", "A file-to-file processing chain survives faults with a correct prefix",
 "A chain that reads a WAV file, processes it through stream processors of this library and writes a WAV file produces, for every block size, scheduling of its reader, processor and writer tasks and splitting of system calls, exactly the output of processing the whole signal at once. "
 "If it is killed at any instant, meets a read error or a permanent write error, or reads a truncated file, the output file holds a correct prefix of that output and the failure shows in good() of the failing side; restarting from the last checkpoint completes it to the same file as an uninterrupted run.",
 ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
 "every signal, chain of processors, block sizes, task interleaving, crash point, I/O fault sequence and restart",
 NOIO + " No test connects two components.",
 ["wav.hh", "pcm.hh", "delay.hh", "sma.hh", "ema.hh", "biquad.hh", "blockdc.hh", "movext.hh", "bip_buffer.hh"],
 [("streaming objects keep all state between blocks", "every stream processor"), ("PCM interface", "pcm.hh, wav.hh")],
 ["bytes on the simulated disk", "good() of both sides"])

prop("C24", "Integrators and differentiators account for every sample exactly once",
 "For every history the integrator returns its initial value plus the sum of all samples so far, and the differentiator returns each sample minus the one before (the given initial value before the first), exactly for integers; a sample that is not finite shows only in the two differences it is part of. "
 "Chained in either order with matching initial values they reproduce the input, across checkpoint, crash and restore at any point.",
 ["histories", "crash_points", "configurations"],
 "every sample history (spikes and, for the differentiator, samples that are not finite included), initial value, element type and restore point",
 "Neither has a test.",
 ["calculus.hh"],
 [("running sum / previous sample", "calculus.hh")],
 ["return value of every call"])

prop("C25", "Filters settle to their specified response after any disturbance stops",
 "After any history of signals, disturbances and retunings, once a steady tone is applied and the last fault has stopped, each filter settles within a bounded number of samples to the response it is configured for, in gain and phase: second-order and cascaded Butterworth low- and high-pass to -3 dB at the cutoff, full gain in the passband and falling gain beyond; band-pass to full gain and notch to none at the centre, both with the bandwidth set by the quality factor; all-pass to full gain everywhere; exponential average to -3 dB at its cutoff (cascaded: about -3 dB at low cutoffs) and full gain at DC; DC blocker to none at DC; the Hilbert transformer and the quarter-rate down-converter to a one-sided tone of the right frequency and level. "
 "No bounded input ever makes their output unbounded, and a new filter answers silence with silence.",
 ["fault_sequences", "histories", "configurations"],
 "every configuration in the designed range, history of tones, noise, spikes and dropouts, retuning instant, and final tone frequency",
 "No filter has a test.",
 ["biquad.hh", "ema.hh", "blockdc.hh", "hilbert.hh", "cdc.hh", "decibel.hh", "exp.hh", "window.hh", "filter.hh", "unit_circle.hh"],
 [("coefficient design", "biquad.hh, ema.hh, blockdc.hh, hilbert.hh, cdc.hh"), ("recursions", "biquad.hh, ema.hh, blockdc.hh")],
 ["return value of every call after settling"])

prop("C26", "The relation of two clocks is recovered from faulty time stamps",
 "From any block of time stamps in which good ones lie on a line, the repeated median estimators (as long as the bad ones stay below half) and the Theil-Sen estimator (as long as the pairs with a bad one stay below half) recover the slope exactly and the offset within rounding, no matter how wrong the bad ones are, in which order they arrive, and which are lost or arrive twice. For every other block the estimates are the medians of their definitions (between lower and upper median; pairs of equal times are left out; the repeated medians look at no more stamps than they have room for), and least squares solves the normal equations, with given and with evenly spaced times. Zero crossing and prediction agree with slope and offset. "
 "Sorting puts any reordered or duplicated delivery in order, losing and changing nothing; selecting finds the k-th in order and leaves nothing larger before and nothing smaller after it. A block resampled by the estimated difference holds, at each output position and nowhere else, the windowed-sinc interpolation of the input at that position times the ratio of the clocks. Nothing depends on earlier blocks, an estimator without any describes the zero line, and copies continue like the original.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "every history of blocks of up to 100 stamps with outliers, losses, repetitions, reordering, wrong and stuck times; noisy blocks of up to 30000 stamps for least squares; sequences of up to 5000 elements; blocks of up to 400 samples with strides",
 "quick_sort_test and quick_select_test try random arrays only; neither the estimators nor block resampling have a test.",
 ["theil_sen.hh", "repeated_median.hh", "regression.hh", "quick.hh", "resampler.hh", "spline.hh", "window.hh"],
 [("medians of slopes", "theil_sen.hh, repeated_median.hh"), ("sums of deviations", "regression.hh"), ("three-way partition, median of five, insertion sort", "quick.hh"), ("position to filter phase", "resampler.hh")],
 ["estimates after every block", "sorted arrays", "every sample of every resampled block"])

prop("C27", "Blocks sent as spectra over a faulty channel are recovered by the transforms",
 "For every supported block size (all prime factors at most 31), in single and double precision, a block of spectrum values sent through the inverse transform, delivered over any combination of late, scaled and turned paths, and given to the forward transform comes back as every value times the size times the channel's response at that frequency, within rounding; damage on the way (spikes, dropouts, stuck, lost, repeated samples, noise) appears as exactly the discrete Fourier transform of what was received and leaves no trace in later blocks. "
 "The real transform of an even size yields the non-redundant half of the spectrum, the constant and the fastest component at half weight. Zero padding in the frequency domain yields the band-limited interpolation of the block for every pair of sizes, odd and even, and passes through the given samples. Inputs stay as they are, nothing else is written, and none of this depends on earlier blocks, other links, or the memory an object was created in; copies work like the original.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every history of blocks, path changes, damages, checkpoints and restores, for 150 sizes (every radix alone, squared and in products; up to 10000) and 45 pairs of sizes for zero padding",
 "Neither the transforms nor zero padding have a test.",
 ["fft.hh", "fdzp.hh", "unit_circle.hh", "complex.hh"],
 [("mixed-radix decimation in time, hand-written radices, twiddle factors", "fft.hh"), ("spectrum split and move", "fdzp.hh")],
 ["output block of every call"])

prop("C28", "Normalizers return to unit amplitude and zero mean after any disturbance",
 "Whatever came before (bursts, dropouts, stuck values, drifting offsets, changes of level over many orders of magnitude, retunings in the middle of the stream), once the configured number of samples has passed several times with an undisturbed sine, the normalizer delivers that sine without its offset and at unit amplitude, apart from the ripple the averaging length leaves; the normalizer of complex signals delivers a circle of unit radius, its two parts treated independently. "
 "At every sample in between the output is the offset-free input over the square root of twice its running mean square (which starts at one half), and never exceeds the square root of half the averaging length. Setting the averaging length changes only what follows and forgets nothing; a copy continues exactly like the original.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "every history of up to some 10000 samples of up to 40 tones, disturbances, retunings to 1..1000 samples, checkpoints and restores, in float and double, real and complex",
 "The normalizers have no test.",
 ["normalize.hh", "blockdc.hh", "ema.hh"],
 [("high pass, mean square, quotient", "normalize.hh"), ("recursions and their retuning", "blockdc.hh, ema.hh")],
 ["return value of every call"])

prop("C29", "FIR filters designed at run time have their response in a faulty stream",
 "A filter made of a history buffer and a coefficient set can be redesigned between any two samples: each output is then the sum of the last samples, the newest first, weighted with the designed coefficients, whatever design was there before. The coefficients are those of the textbook low pass, high pass and band pass (ideal response, cutoff given as fraction of the rate or as quotient of integers, with equal results) and Hilbert transformer of odd and even length, centred on the middle of the set, times the textbook window (rectangular, Hann, Hamming, Lanczos, Blackman in its three forms, Gauss, Kaiser), within a few rounding units. Outside of the set they are zero. A normalised set sums to plus or minus one, or to the reciprocal of the given divisor, keeping its shape. "
 "With a Kaiser window tones inside the pass band come out unchanged apart from the delay of half the length, and those in the stop band disappear, once as many clean samples have passed as the filter has taps. The Hilbert transformer made of these delivers the middle of its past as real and the windowed ideal transform around it as imaginary part, the complex down-converter from a quarter of the rate the two parts of the half-band filtered signal at half the rate. Samples that were not even numbers are forgotten after as many samples, too. A copy continues exactly like the original.",
 ["inputs", "histories", "fault_sequences", "crash_points", "configurations"],
 "every history of up to 40 designs, tones, disturbances, renormalisations, checkpoints and restores, for 2 to 255 taps in float and double",
 "Filter design, windows and coefficient sets have no test.",
 ["coeffs.hh", "filter.hh", "window.hh", "bip_buffer.hh", "hilbert.hh", "cdc.hh", "unit_circle.hh", "kahan.hh", "utils.hh"],
 [("impulse responses", "filter.hh"), ("windows", "window.hh"), ("product and normalisation", "coeffs.hh"), ("history", "bip_buffer.hh")],
 ["every sample of the filtered stream", "coefficients"])

prop("C30", "Curves through lossy, late and revised readings are those of the survivors",
 "A natural cubic spline rebuilt at any time from the readings at hand passes through every one of them, is the one curve with continuous first and second derivative that is straight at both ends, for every start, spacing and stride of the readings, and continues its outermost pieces beyond the ends; it keeps that curve when the readings are changed, lost or overwritten afterwards, until it is built again. The local cubic spline passes through every surviving reading with the mean of the slopes to both neighbours there (at the ends: the slope to the only neighbour), for any times at which three or more readings survived as well as for evenly spaced ones, addressed by time or by piece, and continues its outermost pieces. "
 "So readings on a straight line give that line, a wrong reading bends the local curve over no more than two intervals on each side, and once it is revised nothing of it is left. Real and complex readings are treated alike, the caller's arrays are neither changed nor left, and a copy gives the same curve.",
 ["inputs", "histories", "fault_sequences", "crash_points", "configurations"],
 "every history of up to 60 readings, losses, revisions, rebuilds, looks, checkpoints and restores, for 2 to 64 knots of real and complex values in float and double",
 "Splines have no test.",
 ["spline.hh"],
 [("tridiagonal solve and pieces", "UniformNaturalCubicSpline in spline.hh"), ("slopes and pieces", "CubicHermiteSpline in spline.hh")],
 ["return value of every evaluation", "the caller's arrays"])

prop("C31", "A tracking receiver reads angle and level right and locks again after faults",
 "A loop that follows a carrier with the elementary functions of this library - positions on the unit circle, levels to and from decibel, powers of ten, arc tangents in floating and fixed point, complex arithmetic with all its operators, clamping, linear interpolation - reads at every sample, whatever fades, dropouts, jumps, spikes, clipping, mirrored or half lost samples and restarts came before: sine and cosine of the position within eight rounding units; angle, power and complex results within a few rounding units of the exact ones; the level within the resolution that ten square roots leave; the fixed-point angle within one step at full scale, and correspondingly less at smaller amplitudes. "
 "Once the carrier is steady, the loop's angle and level errors decay by its step size per sample down to rounding, for levels over the whole range of the type. Unit impulse, sinc and normal density, taken at the positions passed, are those defined.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every history of up to 40 turns, fades, faults and restarts on circles of 1 to 10 million positions, at levels of 200 dB (float) and 5000 dB (double) range, with 8 and 16 bit converters",
 "The tests take the functions one by one, at full scale and on circles up to 5000; exp, decibel, complex numbers and helpers have none.",
 ["unit_circle.hh", "atan2.hh", "exp.hh", "decibel.hh", "cordic.hh", "complex.hh", "utils.hh", "const.hh"],
 [("kernels and tables", "unit_circle.hh, atan2.hh, exp.hh, decibel.hh, cordic.hh"), ("operators", "complex.hh"), ("helpers", "utils.hh")],
 ["every reading of the loop", "the loop's errors"])

# ---------------------------------------------------------------- pure functions (not applicable to this technique)
PURE = "The existing tests sample some sizes and values; the property quantifies over all inputs."
def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs", "configurations"], text, PURE, files, mech, ["return value"])

pure("C53", "Elementary function approximations are accurate over their whole domain",
 "Sine and cosine on the unit circle, arc tangents, power of ten, decibel conversion and the fixed-point arc tangent are within their stated error (a few rounding units; 1 LSB) of the true value for every argument.",
 "all arguments", ["unit_circle.hh", "atan2.hh", "exp.hh", "decibel.hh", "cordic.hh", "const.hh"], [("polynomial kernels, table", "unit_circle.hh, atan2.hh, exp.hh, cordic.hh")])
pure("C59", "Small numeric helpers compute their definitions",
 "Sign, clamp, linear interpolation, normal density, sinc and delta return their mathematical definitions for all arguments, and the block resampler evaluates the windowed-sinc interpolation at every position of a block.",
 "all arguments", ["utils.hh", "resampler.hh"], [("closed forms", "utils.hh")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
