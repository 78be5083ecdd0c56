"""What is built, how much is run and what is real, per property."""

COMMON_ASSUMPTIONS = [
    "g++ -O2 without -ffast-math on this machine; other compilers and targets are not simulated",
]

CHECKS = {}


def check(pid, sources, quick, thorough, rule, real, stub, level="exploration", **kw):
    CHECKS[pid] = dict(sources=sources, quick=quick, thorough=thorough, rule=rule, real=real, stub=stub, level=level, **kw)


DISK = [("disk.cc", []), ("main.cc", [])]
DISK_REAL = ["libstdc++ fstream/filebuf", "libc stdio (fdopen, fclose)"]
DISK_STUB = ["system calls open/read/write/writev/lseek/close on files below /sim (interposed, stored in memory)"]
DISK_ASSUME = [
    "a crash is the death of the process: bytes handed to write() survive, everything else is lost; power loss and reordering of writes by the kernel are not simulated",
    "files below 16 MB; sizes beyond 2 GB are not simulated",
]
NONTRIVIAL = "an execution counts if at least one stored frame (pixel, sample) was checked against the oracle or a fault made the operation fail; distinct by the hash of its complete event log (operations, system calls with offsets and lengths, faults, task switches, results)"


def disk_check(pid, quick, thorough, header, extra=(), **kw):
    check(pid, [(pid.lower() + ".cc", [])] + DISK, quick, thorough, NONTRIVIAL, [header] + list(extra) + DISK_REAL, DISK_STUB,
          assumptions=DISK_ASSUME + kw.pop("assumptions", []), time_unit="frames written or read plus simulated system calls", **kw)


disk_check("C01", (240000, 60), (4000000, 600), "wav.hh")
disk_check("C02", (100000, 60), (1600000, 600), "wav.hh", level="fault_enumeration")
disk_check("C03", (100000, 60), (1600000, 600), "wav.hh", level="fault_enumeration")
disk_check("C04", (100000, 60), (1600000, 600), "wav.hh", level="fault_enumeration")
disk_check("C05", (120000, 60), (2000000, 600), "wav.hh", level="fault_enumeration")
disk_check("C06", (120000, 60), (2000000, 600), "wav.hh")
disk_check("C07", (60000, 60), (1000000, 600), "netpbm.hh")
disk_check("C08", (100000, 60), (1500000, 600), "netpbm.hh", level="fault_enumeration")
disk_check("C09", (100000, 60), (1500000, 600), "netpbm.hh", level="fault_enumeration")

PARTS = [("parts.cc", []), ("parts_stream.cc", []), ("parts_call.cc", [])]
STREAM_RULE = "an execution counts if at least one result was compared with the oracle after the first step; distinct by the hash of its complete event log (steps, faults, results)"
STREAM_STUB = ["the clock: one sample, call or operation is one tick", "the source of the samples and its faults"]


def stream_check(pid, quick, thorough, real, extra=(), **kw):
    check(pid, [(pid.lower() + ".cc", [])] + list(extra) + [("main.cc", [])], quick, thorough, kw.pop("rule", STREAM_RULE), real, kw.pop("stub", STREAM_STUB), time_unit=kw.pop("time_unit", "samples or operations"), **kw)


ALL_STREAM = ["delay.hh", "bip_buffer.hh", "swa.hh", "sma.hh", "ema.hh", "movext.hh", "deque.hh", "stack.hh", "kahan.hh", "phasor.hh", "trigger.hh", "biquad.hh", "blockdc.hh", "calculus.hh", "hilbert.hh", "cdc.hh", "resampler.hh", "lms.hh", "amd.hh", "fmd.hh", "normalize.hh"]
ALL_CALL = ["fft.hh", "fdzp.hh", "theil_sen.hh", "repeated_median.hh", "regression.hh", "spline.hh", "filter.hh", "window.hh", "coeffs.hh", "quick.hh", "cordic.hh", "atan2.hh", "exp.hh", "decibel.hh", "pcm.hh"]
# objects in this order: what the simulator itself uses of templates must be the uninstrumented copy
TSAN = ["-O1", "-fsanitize=thread", "-include", "tsan_prelude.hh"]
check("C10", [("c10.cc", []), ("threads.cc", []), ("disk.cc", []), ("main.cc", []), ("parts.cc", []), ("parts_stream.cc", TSAN), ("parts_call.cc", TSAN), ("parts_file.cc", TSAN)],
      (60000, 60), (1500000, 600),
      "an execution counts if at least one preemption was taken and one result was compared with the task running alone; distinct by the hash of its complete event log (preemptions with their positions, results)",
      ALL_STREAM + ALL_CALL + ["wav.hh", "netpbm.hh", "POSIX threads"] + DISK_REAL,
      DISK_STUB + ["the thread scheduler: one thread runs at a time, memory accesses and synchronisation operations of the library's code are where it may be preempted", "mutexes, once-initialisation, guards of local statics and atomics (simulated, with happens-before clocks)"],
      time_unit="memory accesses of instrumented code", link=["-rdynamic"],
      assumptions=["sequentially consistent memory: what a weaker memory model adds is covered by the race check only", "the code is compiled with -O1 and the compiler's thread sanitizer instrumentation; accesses the compiler keeps in registers are no preemption points"])
stream_check("C11", (400000, 40), (8000000, 500), ALL_STREAM + ALL_CALL, PARTS)
stream_check("C12", (200000, 40), (4000000, 500), ["resampler.hh"] + ALL_CALL, PARTS)
stream_check("C13", (1500000, 40), (20000000, 500), ["delay.hh", "bip_buffer.hh", "swa.hh", "sma.hh", "movext.hh"])
stream_check("C14", (600000, 40), (8000000, 500), ["deque.hh", "stack.hh"])
stream_check("C15", (1500000, 40), (20000000, 500), ["delay.hh", "bip_buffer.hh", "swa.hh", "sma.hh", "movext.hh", "calculus.hh", "hilbert.hh", "cdc.hh", "resampler.hh", "fmd.hh", "ema.hh", "blockdc.hh", "biquad.hh", "normalize.hh", "amd.hh"])
stream_check("C16", (120000, 40), (2000000, 500), ["resampler.hh", "spline.hh", "window.hh"])
stream_check("C17", (240000, 40), (4000000, 500), ["phasor.hh", "complex.hh"])
stream_check("C18", (800000, 40), (10000000, 500), ["trigger.hh"])
stream_check("C19", (80000, 40), (1200000, 500), ["kahan.hh", "sma.hh"])
stream_check("C20", (60000, 40), (800000, 500), ["lms.hh", "bip_buffer.hh"])
stream_check("C21", (160000, 40), (2000000, 500), ["amd.hh", "utils.hh"])
stream_check("C22", (800000, 40), (10000000, 500), ["fmd.hh", "complex.hh"])
check("C23", [("c23.cc", []), ("disk.cc", []), ("main.cc", [])] + PARTS, (160000, 60), (3000000, 600), NONTRIVIAL, ["wav.hh"] + ALL_STREAM + DISK_REAL,
      DISK_STUB + ["the scheduler of the reader, processor and writer tasks", "stable storage of checkpoints", "the program that joins the components (reader, processor, writer, bounded queues, recovery)"], level="fault_enumeration",
      time_unit="samples processed, frames read or written and simulated system calls", assumptions=DISK_ASSUME + ["write errors are permanent (dead or full disk); passing ones are C03's"])
stream_check("C24", (800000, 40), (10000000, 500), ["calculus.hh"])
stream_check("C25", (600000, 40), (8000000, 500), ["biquad.hh", "ema.hh", "blockdc.hh", "hilbert.hh", "cdc.hh", "unit_circle.hh", "window.hh", "filter.hh", "decibel.hh"])
stream_check("C26", (150000, 40), (2500000, 500), ["theil_sen.hh", "repeated_median.hh", "regression.hh", "quick.hh", "resampler.hh", "spline.hh", "window.hh"],
             time_unit="blocks of time stamps, resampled blocks and sorted elements", stub=["the two clocks", "the link the time stamps come over and its faults"])
stream_check("C27", (200000, 40), (3000000, 500), ["fft.hh", "fdzp.hh", "complex.hh", "unit_circle.hh"], [("c27_sizes.cc", ["-DBANK=%d" % n]) for n in range(6)],
             time_unit="blocks transformed", stub=["the channel between inverse and forward transform and its faults"])
stream_check("C28", (300000, 40), (5000000, 500), ["normalize.hh", "blockdc.hh", "ema.hh", "complex.hh"])
stream_check("C29", (150000, 40), (2500000, 500), ["coeffs.hh", "filter.hh", "window.hh", "bip_buffer.hh", "hilbert.hh", "cdc.hh", "unit_circle.hh", "kahan.hh", "utils.hh", "const.hh"])
stream_check("C30", (600000, 40), (10000000, 500), ["spline.hh", "complex.hh"], time_unit="evaluations of a curve", stub=["the source of the readings, their link and its faults"])
stream_check("C31", (300000, 40), (5000000, 500), ["unit_circle.hh", "atan2.hh", "exp.hh", "decibel.hh", "cordic.hh", "complex.hh", "utils.hh", "const.hh"], stub=["the carrier, its faults and the steering of the loop"])

LEVEL_NOTES = {
    "exploration": "seeded sampling of workloads, schedules and faults; no exhaustiveness is claimed",
    "fault_enumeration": "seeded sampling in which every system call of a run (every header byte) is a possible fault position; positions are covered many times over, their combinations only sampled",
}

PURE = "pure function of its arguments: no schedule, clock, fault or history to simulate; input generation would be another technique"
NOT_APPLICABLE = dict((p, PURE) for p in ("C53", "C59"))
