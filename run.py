#!/usr/bin/env python3
"""Runs the check of one property: builds its simulator from the repository's working tree, runs the
seeds on all cores, minimises and gates a violation, writes the evidence.

  run.py PROPERTY quick|thorough      exit 0 held, 1 violated (VIOLATION line), other: error of the check
  run.py build [PROPERTY...]          build only
  run.py setup                        check that the tools are there
"""
import concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_ASSUMPTIONS

REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = 8


class CheckError(Exception):
    pass


# a line that instantiates the library for one kind of number, size or component
INSTANCE = re.compile(r"^\s*(ADD\(.*\)|UNIT\(.*\),|\w+<[^;]*>\([^;]*\);|(case [\w']+|default): .*;)\s*$")


def without_instances(src, text, msg):
    """text without the lines whose instantiations the compiler rejects, and those lines"""
    lines = text.split("\n")
    gone = []
    for n in sorted(set(int(m) for m in re.findall(r"\b%s:(\d+):\d+:\s+required from here" % re.escape(os.path.basename(src)), msg))):
        if n <= len(lines) and INSTANCE.match(lines[n - 1]):
            gone.append(lines[n - 1].strip())
            lines[n - 1] = "default: break;" if lines[n - 1].strip().startswith("default:") else ""
    return "\n".join(lines), gone


def try_instances(src, text, command, out):
    """the same, by compiling every such line without the others"""
    lines = text.split("\n")
    inst = [n for n, line in enumerate(lines) if re.match(r"^(ADD\(|\s+UNIT\()", line) and INSTANCE.match(line)]

    def one(n):
        path = os.path.join(out, "try-%d-%s" % (n, os.path.basename(src)))
        with open(path, "w") as f:
            f.write("\n".join("" if k in inst and k != n else line for k, line in enumerate(lines)))
        p = subprocess.run(command(path) + ["-fsyntax-only"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.unlink(path)
        return p.returncode == 0

    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        bad = [n for n, ok in zip(inst, pool.map(one, inst)) if not ok]
    if len(bad) == len(inst):
        return text, []
    return "\n".join("" if n in bad else line for n, line in enumerate(lines)), [lines[n].strip() for n in bad]


def build(pid, skipped=None):
    """A change may leave the library unusable for some kinds of numbers: those are left out, and the rest is simulated."""
    c = CHECKS[pid]
    out = os.path.join(HERE, "build", pid)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "sim")

    def command(n, path):
        return ["g++", "-std=c++17", "-O2", "-g1", "-w", "-I" + os.path.join(HERE, "sim"), "-I" + REPO] + c["sources"][n][1] + ["-c", path]

    def start(n, path):
        src, extra = c["sources"][n]
        obj = os.path.join(out, "%d-%s" % (n, os.path.basename(src).replace(".cc", ".o")))
        return obj, subprocess.Popen(command(n, path) + ["-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    jobs = [start(n, os.path.join(HERE, "sim", src)) for n, (src, extra) in enumerate(c["sources"])]
    objs = []
    problem = None
    for n, (obj, p) in enumerate(jobs):
        src = c["sources"][n][0]
        objs.append(obj)
        msg, _ = p.communicate()
        text, tries = None, 0
        while p.returncode and not problem:
            if text is None:
                text = open(os.path.join(HERE, "sim", src)).read()
            text, gone = without_instances(src, text, msg)
            if not gone:
                text, gone = try_instances(src, text, lambda path: command(n, path), out)
            tries += 1
            if not gone or tries > 10:
                problem = "cannot build %s:\n%s" % (src, msg[-4000:])
                break
            if skipped is not None:
                skipped += gone
            path = os.path.join(out, os.path.basename(src))
            with open(path, "w") as f:
                f.write(text)
            _, p = start(n, path)
            msg, _ = p.communicate()
    if problem:
        raise CheckError(problem)
    p = subprocess.run(["g++", "-o", exe] + objs + c.get("link", []) + ["-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("cannot link:\n" + p.stdout[-4000:])
    return exe


def run_exec(exe, plan):
    p = subprocess.run([exe, "exec", plan], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    m = re.search(r"^RESULT (\S+) hash=(\w+) events=(\d+) class=(\S+)\n(.*)", p.stdout, re.M)
    if p.returncode not in (0, 10) or not m:
        return None
    return {"bad": p.returncode == 10, "hash": m.group(2), "cls": m.group(4), "msg": m.group(5)}


def report_violation(pid, exe, tier, seed, plan, index, worker):
    """minimise, then gate: two fresh processes must reproduce the same violation exactly"""
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    first = run_exec(exe, plan)
    if not (first and first["bad"]):
        # the violation depends on earlier executions in the process: replay those as well
        k, found = 1, False
        before = index // WORKERS
        text = open(plan).read()
        while not found and before:
            k = min(k, before)
            start = worker + (index // WORKERS - k) * WORKERS
            with open(plan, "w") as f:
                f.write(text.replace("\npar", "\nwarm %d %d %d %d %s\npar" % (seed, start, WORKERS, k, tier), 1))
            first = run_exec(exe, plan)
            found = bool(first and first["bad"])
            if k == before:
                break
            k *= 8
        if not found:
            raise CheckError("violation of index %d does not reproduce in a fresh process" % index)
    name = "%s-%d-%d.replay" % (pid, seed, index)
    small = os.path.join(rep, name)
    p = subprocess.run([exe, "min", plan, small], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if p.returncode:
        shutil.copyfile(plan, small)
    a, b = run_exec(exe, small), run_exec(exe, small)
    if not a or not b or not a["bad"] or a["cls"] != b["cls"] or a["hash"] != b["hash"]:
        shutil.copyfile(plan, small)
        a, b = run_exec(exe, small), run_exec(exe, small)
        if not a or not b or not a["bad"] or a["cls"] != b["cls"] or a["hash"] != b["hash"]:
            raise CheckError("violation of index %d does not replay exactly" % index)
    text = open(small).read()
    with open(small, "w") as f:
        f.write(text.replace(plan, small))
    print("violated: %s: %s (seed %d, run %d)" % (a["cls"], a["msg"], seed, index))
    print("replay with: bash replay.sh %s %s" % (pid, small))
    print("VIOLATION property=%s replay=%s" % (pid, small))
    return {"class": a["cls"], "message": a["msg"], "seed": seed, "run_index": index, "replay": small, "minimised": p.stdout.strip(), "log_hash": a["hash"]}


def known_findings(pid):
    known = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    skipped = []
    exe = build(pid, skipped)
    for line in skipped:
        print("left out, does not compile: " + line)
    t_build = time.time() - t0
    out = os.path.join(HERE, "build", pid, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    runs, seconds = c["quick"] if tier == "quick" else c["thorough"]
    if os.environ.get("SIM_SECONDS"):
        seconds, runs = float(os.environ["SIM_SECONDS"]), 10 ** 12
    per = (runs + WORKERS - 1) // WORKERS
    t1 = time.time()
    procs = []
    for w in range(WORKERS):
        base = os.path.join(out, "w%d" % w)
        err = open(base + ".err", "w")
        procs.append((w, base, subprocess.Popen([exe, "batch", str(seed), str(w), str(WORKERS), str(per), str(seconds), tier, base], stdout=err, stderr=err)))
    deadline = time.time() + seconds + 60
    failures, errors, killed = [], [], set()
    pending = dict((w, (b, p)) for w, b, p in procs)
    while pending:
        time.sleep(0.02)
        for w in list(pending):
            base, p = pending[w]
            if p.poll() is None:
                if time.time() > deadline:
                    p.kill()
                    killed.add(w)
                continue
            del pending[w]
            if p.returncode == 0:
                continue
            if w in killed:
                if not failures:
                    errors.append("worker %d did not stop in time" % w)
                continue
            if p.returncode == 10:
                text = open(base + ".violation").read()
                index = int(re.search(r"^seed \d+ (\d+)", text, re.M).group(1))
                failures.append((index, w, base + ".violation"))
            elif p.returncode < 0:
                with open(base + ".progress", "rb") as f:
                    index = struct.unpack("<Q", f.read(8))[0]
                if index == 0:
                    errors.append("worker %d killed by signal %d outside a run" % (w, -p.returncode))
                else:
                    plan = base + ".violation"
                    subprocess.run([exe, "gen", str(seed), str(index - 1), tier, plan], check=True)
                    failures.append((index - 1, w, plan))
            else:
                errors.append("worker %d: exit %d: %s" % (w, p.returncode, open(base + ".err").read()[-2000:]))
            # something failed: the others may stop
            if failures:
                deadline = min(deadline, time.time() + 3)
    t_run = time.time() - t1
    # merge
    tot = {"runs": 0, "nontrivial": 0, "events": 0, "ticks": 0, "faulted": 0, "doubled": 0, "plan_steps": 0}
    counters, samples, hashes, decisions, early = {}, [], set(), set(), {}
    for w, base, p in procs:
        if os.path.exists(base + ".stats"):
            s = json.load(open(base + ".stats"))
            for k in tot:
                tot[k] += s[k]
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += s["samples"]
            for name, dst in ((".hashes", hashes), (".decisions", decisions)):
                data = open(base + name, "rb").read()
                dst.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        if os.path.exists(base + ".early"):
            for line in open(base + ".early"):
                i, _, h = line.strip().partition(" ")
                if len(h) == 16:
                    early[int(i)] = h
    violations = []
    problem = None
    if failures:
        for index, w, plan in sorted(failures):
            try:
                violations.append(report_violation(pid, exe, tier, seed, plan, index, w))
                break
            except CheckError as e:
                errors.append(str(e))
    if not violations:
        if errors:
            problem = "; ".join(errors)
        elif tot["runs"] == 0:
            problem = "nothing was simulated"
    determinism = None
    if not violations and not problem:
        # other process, other order, other number of workers: same logs?
        n = max([i for i in early] or [-1]) + 1
        n = min(n, c.get("recheck", 200))
        p = subprocess.run([exe, "hashes", str(seed), "0", str(n), tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        same = 0
        for line in p.stdout.splitlines():
            i, h = line.split()
            if int(i) in early:
                if early[int(i)] != h:
                    problem = "run %s is not deterministic: %s in a batch worker, %s alone" % (i, early[int(i)], h)
                    break
                same += 1
        if p.returncode and not problem:
            problem = "determinism re-run failed with %d" % p.returncode
        determinism = {"runs_executed_twice_in_process": tot["doubled"], "runs_repeated_in_another_process_and_order": same, "mismatches": 0 if not problem else 1}
    known = known_findings(pid)
    shown = []
    for k in sorted(counters):
        if k.startswith("known."):
            name = k[6:]
            if name in known:
                print("KNOWN-FINDING: property=%s %s: %s (met in %d runs)" % (pid, name, known[name], counters[k]))
                shown.append(name)
            elif not violations and not problem:
                problem = "unlisted known finding " + name
    wall = time.time() - t0
    faults = dict((k[6:], v) for k, v in counters.items() if k.startswith("fault."))
    states = dict((k[6:], v) for k, v in counters.items() if k.startswith("state."))
    other = dict((k, v) for k, v in counters.items() if not k.startswith(("fault.", "state.", "known.")))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": c["rule"],
            "samples": samples[:6],
            "seeds": tot["runs"],
            "runs_per_hour": int(tot["runs"] / max(t_run, 1e-3) * 3600),
            "runs_with_faults_fired": tot["faulted"],
            "faults_fired": faults,
            "states_reached": states,
            "distinct_fault_and_schedule_sequences": len(decisions),
            "simulated_time": {"unit": c.get("time_unit", "samples, frames, system calls and task switches processed"), "ticks": tot["ticks"]},
            "logged_events": tot["events"],
            "plan_steps": tot["plan_steps"],
            "other_counters": other,
            "determinism": determinism,
            "components": {"real": c["real"], "simulated": c["stub"]},
            "known_findings_met": shown,
            "instances_left_out_because_they_do_not_compile": skipped,
            "build_s": round(t_build, 2), "simulation_s": round(t_run, 2),
        },
        "assumptions": COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "violation_details": violations,
    }
    if problem:
        ev["error"] = problem
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct), %d with faults, %d ticks, %.1f s%s" % (pid, tier, tot["runs"], len(hashes), tot["faulted"], tot["ticks"], wall, "" if not problem else ", ERROR"))
    if violations:
        return 1
    if problem:
        print(problem, file=sys.stderr)
        return 3
    return 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        for pid in sys.argv[2:] or sorted(CHECKS):
            build(pid)
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for d in ("build", "evidence", "replays"):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        return subprocess.run(["g++", "--version"]).returncode
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(sys.argv[1], tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("error: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
