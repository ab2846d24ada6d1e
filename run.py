#!/usr/bin/env python3
"""Run the check of one property: build the engines it needs against /repo's
working tree, run them over the cores, judge what their monitors saw, and write
evidence/<id>.json.

    run.py C01            the check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    run.py --setup        check that the tools are there and the crate builds
    run.py --replay FILE  run a replay file again

Exit 0: held on everything observed. 1: violated, with a VIOLATION line.
Anything else: no verdict."""

import json
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import hostile  # noqa: E402
import plans  # noqa: E402

CORES = min(8, os.cpu_count() or 1)
NATIVE = "x86_64-unknown-linux-gnu"


class NoVerdict(Exception):
    pass


# ------------------------------------------------------------------ building

VARIANTS = {
    # name: (toolchain, cargo arguments, RUSTFLAGS, sub-directory of the binaries)
    "dbg": (None, [], "", "debug"),
    "rel": (None, ["--release"], "", "release"),
    "nostd": (None, ["--no-default-features", "--features", "extra"], "", "debug"),
    "nostdrel": (None, ["--release", "--no-default-features", "--features", "extra"], "", "release"),
    "asan": ("+nightly", ["--features", "heap", "--target", NATIVE], "-Zsanitizer=address", NATIVE + "/debug"),
    # The standard library isn't instrumented: the engine that runs so makes its
    # threads by pthread_create.
    "tsan": ("+nightly", ["--target", NATIVE], "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", NATIVE + "/debug"),
    "tsanrel": ("+nightly", ["--release", "--target", NATIVE], "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", NATIVE + "/release"),
    "asanrel": ("+nightly", ["--features", "heap", "--release", "--target", NATIVE], "-Zsanitizer=address", NATIVE + "/release"),
}
MIRI = {
    "miri": ["-Zmiri-tree-borrows"],
    "mirisb": [],
    "mirisym": ["-Zmiri-tree-borrows", "-Zmiri-symbolic-alignment-check"],
    # Without rules of aliasing: `refpool` itself breaks those.
    "mirina": ["-Zmiri-disable-stacked-borrows"],
    # A machine with 32 bits.
    "miri32": ["-Zmiri-tree-borrows"],
}
MIRI_TARGET = {"miri32": "i686-unknown-linux-gnu"}


def clean_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN_", "TSAN_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def build_cmd(variant, bins):
    tool, args, flags, _ = VARIANTS[variant]
    cmd = ["cargo"] + ([tool] if tool else []) + ["build", "-q", "--offline"] + args
    for b in bins:
        cmd += ["--bin", b]
    env = clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, variant)
    env["RUSTFLAGS"] = ("--cap-lints allow " + flags).strip()
    return cmd, env


def miri_cmd(variant, binary, args):
    env = clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "miri")
    env["RUSTFLAGS"] = hostile.miri_rustflags()
    env["MIRIFLAGS"] = " ".join(["-Zmiri-disable-isolation", "-Zmiri-ignore-leaks"] + MIRI[variant])
    target = ["--target", MIRI_TARGET[variant]] if variant in MIRI_TARGET else []
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline"] + target + ["--bin", binary, "--"] + args, env


def binary_path(variant, b):
    return os.path.join(BUILD, variant, VARIANTS[variant][3], b)


def build(jobs):
    """Build every variant that the jobs need, side by side."""
    need = {}
    for j in jobs:
        need.setdefault(j["variant"], set()).add(j["bin"])
    procs = []
    for v, bins in sorted(need.items()):
        if v in MIRI:
            continue
        cmd, env = build_cmd(v, sorted(bins))
        procs.append((v, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    # Miri's builds share a directory, so they take turns; running nothing builds.
    errors = []
    for v, b in sorted({(v if v in MIRI_TARGET else "mirisb", b) for v, bins in need.items() if v in MIRI for b in bins}):
        cmd, env = miri_cmd(v, b, ["do=none", "noop=1"])
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "DONE" not in r.stdout:
            errors.append("miri %s:\n%s" % (b, r.stdout[-3000:]))
    for v, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            errors.append("%s:\n%s" % (v, out[-6000:]))
    if errors:
        raise NoVerdict("the engines don't build:\n" + "\n".join(errors))


# ------------------------------------------------------------------- running

CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
ASAN_EXIT = 86
TSAN_EXIT = 87


class Outcome:
    """What one process said."""

    def __init__(self):
        self.what = None  # ok, viol, hang, crash, ub, error
        self.case = None
        self.kinds = ""
        self.msg = ""
        self.log = ""
        self.stats = {}
        self.counts = {}
        self.samples = []
        self.tail = ""


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start(variant, binary, args, tmp, tag):
    out = open(os.path.join(tmp, tag + ".out"), "w+b")
    err = open(os.path.join(tmp, tag + ".err"), "w+b")
    prog = os.path.join(tmp, tag + ".case")
    if variant in MIRI:
        cmd, env = miri_cmd(variant, binary, args)
    else:
        cmd, env = [binary_path(variant, binary)] + args, clean_env()
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=%d:abort_on_error=0" % TSAN_EXIT
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=%d:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1" % ASAN_EXIT
    env["VH_PROGRESS"] = prog
    env["RUST_BACKTRACE"] = "0"
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=out, stderr=err, stdin=subprocess.DEVNULL, preexec_fn=limits)
    return p, out, err, prog


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def read(f, most=4_000_000):
    f.seek(0, 2)
    n = f.tell()
    f.seek(max(0, n - most))
    return f.read().decode("utf-8", "replace")


def judge(variant, rc, out, err, prog):
    o = Outcome()
    o.tail = (out[-1500:] + "\n" + re.sub(r"(?m)^CASE \d+\n", "", err)[-(20000 if variant in MIRI else 3000):]).strip()
    for line in out.splitlines():
        if line.startswith("VIOL "):
            m = re.match(r"VIOL kind=(\S+) case=(\d+) msg=(.*)", line)
            o.kinds, o.case, o.msg = m.group(1), int(m.group(2)), m.group(3)
        elif line.startswith("CASELOG "):
            o.log = line[8:]
        elif line.startswith("STATS "):
            o.stats = {k: int(v) for k, v in (x.split("=") for x in line[6:].split())}
        elif line.startswith("COUNT "):
            k, v = line[6:].split("=")
            o.counts[k] = o.counts.get(k, 0) + int(v)
        elif line.startswith("SAMPLE "):
            o.samples.append(line[7:])
        elif line.startswith("HANG "):
            o.case = int(line.split("case=")[1])
        elif line.startswith("PANIC "):
            m = re.match(r"PANIC case=(\d+) msg=(.*)", line)
            o.case, o.msg = int(m.group(1)), m.group(2)
    if o.case is None:
        if variant in MIRI:
            c = re.findall(r"(?m)^CASE (\d+)", err)
            o.case = int(c[-1]) if c else None
        else:
            try:
                with open(prog, "rb") as f:
                    o.case = struct.unpack("<Q", f.read(8))[0]
            except (OSError, struct.error):
                pass
    done = re.search(r"(?m)^DONE$", out) is not None
    if rc == 0 and done:
        o.what = "ok"
    elif rc == 3 and o.kinds:
        o.what = "viol"
    elif rc == 4:
        o.what, o.msg = "hang", "a call used 20 s of processor time without returning"
    elif rc == 6 and o.msg:
        o.what, o.msg = "crash", "what should never panic did: " + o.msg
    elif variant in MIRI and re.search(r"error: (Undefined Behavior|abnormal termination)", err):
        o.what = "ub"
        o.msg = re.search(r"error: ((Undefined Behavior|abnormal termination).*)", err).group(1)
    elif rc == ASAN_EXIT and "AddressSanitizer" in err:
        o.what = "ub"
        m = re.search(r"ERROR: (AddressSanitizer.*)", err)
        o.msg = re.sub(r"0x[0-9a-f]+", "0x..", m.group(1)) if m else "AddressSanitizer report"
    elif rc == TSAN_EXIT and "ThreadSanitizer" in err:
        o.what = "ub"
        m = re.search(r"WARNING: (ThreadSanitizer: [^(\n]*)", err)
        o.msg = m.group(1).strip() if m else "ThreadSanitizer report"
    elif rc < 0 and -rc in CRASHES:
        o.what, o.msg = "crash", "the process was ended by %s" % signal.Signals(-rc).name
        m = re.search(r"(?m)^(thread .*panicked.*|.*cannot unwind.*|.*panic in a destructor.*|.*memory allocation of.*failed.*|unsafe precondition.*)$", err)
        if m:
            o.msg += " (%s)" % m.group(1)
    else:
        o.what, o.msg = "error", "exit %d: %s" % (rc, o.tail[-1500:])
    return o


def run_one(variant, binary, args, tmp, tag, deadline):
    p, out, err, prog = start(variant, binary, args, tmp, tag)
    try:
        p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        kill(p)
        raise NoVerdict("out of time in %s %s" % (binary, " ".join(args)))
    o = judge(variant, p.returncode, read(out), read(err), prog)
    out.close()
    err.close()
    return o


class Task:
    def __init__(self, job, shard, shards, args):
        self.job, self.shard, self.shards, self.args = job, shard, shards, args
        self.outcome = None
        self.took = 0


def run_tasks(tasks, tmp, deadline, stop_on):
    """Run the tasks over the cores. Stops early at the first that `stop_on`."""
    queue = list(tasks)
    running = []
    n = 0
    found = None
    try:
        while (queue or running) and found is None:
            while queue and len(running) < CORES:
                t = queue.pop(0)
                n += 1
                t.tag = "t%d" % n
                t.began = time.time()
                running.append((t, start(t.job["variant"], t.job["bin"], t.args, tmp, t.tag)))
            time.sleep(0.02)
            for e in list(running):
                t, (p, out, err, prog) = e
                if p.poll() is None:
                    continue
                running.remove(e)
                t.took = time.time() - t.began
                t.outcome = judge(t.job["variant"], p.returncode, read(out), read(err), prog)
                out.close()
                err.close()
                if stop_on(t):
                    found = t
                    break
            if time.time() > deadline:
                raise NoVerdict("out of time; running: %s" % "; ".join(t.job["bin"] + " " + " ".join(t.args) for t, _ in running))
    finally:
        for _, (p, _, _, _) in running:
            kill(p)
    return found


# ------------------------------------------------------------------ the check


def shard_args(job, shard, shards, seed, interest):
    a = ["interest=" + interest, "seed=%d" % job.get("seed", seed), "shard=%d" % shard, "shards=%d" % shards]
    return a + ["%s=%s" % kv for kv in job["args"].items()]


def describe(t):
    return "%s (%s): %s" % (t.job["bin"], t.job["variant"], " ".join(t.args))


def confirm(prop, t, tmp, deadline):
    """Run the case again by itself, with a trace; and else the whole shard."""
    o = t.outcome
    attempts = []
    if o.case is not None:
        attempts.append((t.args + ["only=%d" % o.case, "trace=1"], "the case by itself"))
    attempts.append((t.args, "the whole shard"))
    if t.job["bin"] == "threads":
        # What threads do depends on the moment.
        attempts *= 4
    for i, (args, how) in enumerate(attempts):
        r = run_one(t.job["variant"], t.job["bin"], args, tmp, "confirm%d" % i, deadline)
        if r.what in ("viol", "hang", "ub", "crash"):
            return args, how, r
    return None


def write_replay(prop, t, args, how, o, extra=""):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (prop, t.job["bin"], t.job["variant"], o.case))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "engine": t.job["bin"],
                "variant": t.job["variant"],
                "args": args,
                "reproduced_by": how,
                "what": o.what,
                "kind": o.kinds,
                "message": o.msg,
                "case": o.log,
                "output": o.tail,
                "extra": extra,
                "again": "python3 /verif/run.py --replay " + path,
            },
            f,
            indent=1,
        )
    return path


def hostile_programs(classes):
    """See hostile.py. What can't be judged is said, and decides nothing."""
    try:
        return hostile.judge(os.path.join(BUILD, "hostile"), os.path.join(BUILD, "hostile-target"), clean_env(), os.path.join(HARNESS, "Cargo.lock"), classes, CORES, print)
    except (hostile.Unjudged, subprocess.TimeoutExpired) as e:
        print("The hostile programs are not judged: %s" % e)
        return {"not_judged": str(e)[:500]}, None


def write_hostile(prop, side, name, source, what, words):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, side, name))
    with open(path, "w") as f:
        json.dump({"property": prop, "hostile": name, "source": source, "message": what, "output": words, "again": "python3 /verif/run.py --replay " + path}, f, indent=1)
    return path


def known_findings():
    """The entries of known-findings.txt: (property, id, text)."""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) program=(\S+) signature=/(.*)/ what=(.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def check_known(prop, tmp, deadline):
    """Run the programs of the known findings; print those that still fail.
    Returns a violation if one fails in another way."""
    rows = []
    for p, program, sig, what in known_findings():
        if p != prop:
            continue
        job = {"variant": "mirisb", "bin": "kf", "args": {"which": program}}
        t = Task(job, 0, 1, ["which=" + program])
        t.outcome = run_one("mirisb", "kf", t.args, tmp, "kf-" + program, deadline)
        o = t.outcome
        if o.what == "ub" and re.search(sig, o.tail):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            rows.append(what)
        elif o.what == "ok":
            print("The known finding %s is no longer there." % program)
        elif o.what in ("ub", "crash", "viol"):
            return rows, t
        else:
            raise NoVerdict("known-finding program %s: %s" % (program, o.msg))
    return rows, None


def compare_digests(tasks, tmp):
    """Tasks of one group ran the same cases in different builds. Yields the
    first case whose digests differ."""
    groups = {}
    for t in tasks:
        g = t.job.get("same")
        if g:
            groups.setdefault((g, t.shard), []).append(t)
    compared = 0
    for key, ts in sorted(groups.items()):
        def load(t):
            with open(os.path.join(tmp, "dig-%s-%s-%d" % (t.job["variant"], t.job["same"], t.shard)), "rb") as f:
                b = f.read()
            v = struct.unpack("<%dQ" % (len(b) // 8), b)
            return dict(zip(v[::2], v[1::2]))
        first = load(ts[0])
        for t in ts[1:]:
            other = load(t)
            if set(first) != set(other):
                raise NoVerdict("different cases in %s and %s" % (describe(ts[0]), describe(t)))
            for c in sorted(first):
                compared += 1
                if first[c] != other[c]:
                    return compared, (ts[0], t, c)
    return compared, None


def check(prop, tier, seed):
    t0 = time.time()
    spec = plans.PLANS[prop]
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    jobs = spec["jobs"](tier)
    interest = ",".join(spec["interest"])
    known_props = {p for p, _, _, _ in known_findings()}
    builds = list(jobs)
    if prop in known_props:
        builds.append({"variant": "mirisb", "bin": "kf", "args": {}})
    build(builds)
    t_build = time.time() - t0

    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        tasks = []
        told = None
        if "hostile" in spec:
            told, bad = hostile_programs(spec["hostile"])
            if bad is not None:
                side, name, source, what, words = bad
                path = write_hostile(prop, side, name, source, what, words)
                print("%s program %s, which the compiler accepts: %s" % (side, name, what))
                print(words[:3000])
                evidence(prop, spec, tier, seed, tasks, tmp, t0, t_build, 1, [], 0, told)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        for j in jobs:
            shards = j.get("shards", CORES)
            for s in range(shards):
                args = shard_args(j, s, shards, seed, j.get("interest", interest))
                args.append("out=" + os.path.join(tmp, "cov-%d-%d" % (len(tasks), s)))
                if "same" in j:
                    args.append("digest=" + os.path.join(tmp, "dig-%s-%s-%d" % (j["variant"], j["same"], s)))
                tasks.append(Task(j, s, shards, args))
        # The slow ones first.
        tasks.sort(key=lambda t: -t.job.get("weight", 10 if t.job["variant"] in MIRI else 1))
        fatal = spec.get("fatal", True)

        def stop_on(t):
            o = t.outcome
            return o.what in ("viol", "hang", "crash", "ub", "error")

        found = run_tasks(tasks, tmp, deadline, stop_on)
        if found is not None:
            o = found.outcome
            if o.what == "error":
                raise NoVerdict("%s: %s" % (describe(found), o.msg))
            if o.what in ("crash", "hang", "ub") and not fatal:
                raise NoVerdict("%s: %s, which is for another check" % (describe(found), o.msg))
            r = confirm(prop, found, tmp, min(deadline, time.time() + 300))
            if r is None:
                raise NoVerdict("seen once but not again: %s: %s: %s %s" % (describe(found), o.what, o.msg, o.log[:2000]))
            args, how, o2 = r
            path = write_replay(prop, found, args, how, o2)
            print("%s: %s" % (describe(found), o2.what))
            print("%s %s" % (o2.kinds, o2.msg))
            print("case: %s" % (o2.log or o2.tail)[:3000])
            evidence(prop, spec, tier, seed, tasks, tmp, t0, t_build, 1, [], 0, told)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1

        compared, diff = compare_digests(tasks, tmp)
        if diff is not None:
            a, b, case = diff
            outs = []
            for k, t in enumerate((a, b)):
                args = [x for x in t.args if not x.startswith(("out=", "digest="))] + ["only=%d" % case, "trace=1", "digest=" + os.path.join(tmp, "again%d" % k)]
                outs.append(run_one(t.job["variant"], t.job["bin"], args, tmp, "diff%d" % k, deadline))
            again = [open(os.path.join(tmp, "again%d" % k), "rb").read() for k in (0, 1)]
            if again[0] == again[1]:
                raise NoVerdict("case %d of %s differed from %s once but not again" % (case, describe(a), describe(b)))
            oa, ob = outs
            oa.case = case
            oa.what, oa.kinds = "viol", "config"
            oa.msg = "the builds %s and %s behave differently" % (a.job["variant"], b.job["variant"])
            path = write_replay(prop, a, [x for x in a.args if not x.startswith(("out=", "digest="))] + ["only=%d" % case, "trace=1"], "the case by itself", oa, "%s:\n%s" % (describe(b), ob.tail))
            print(oa.msg)
            print("in %s: %s" % (a.job["variant"], oa.tail[-1500:]))
            print("in %s: %s" % (b.job["variant"], ob.tail[-1500:]))
            evidence(prop, spec, tier, seed, tasks, tmp, t0, t_build, 1, [], compared, told)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1

        rows, bad = check_known(prop, tmp, deadline)
        if bad is not None:
            path = write_replay(prop, bad, bad.args, "the known-finding program", bad.outcome)
            print(bad.outcome.tail)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        evidence(prop, spec, tier, seed, tasks, tmp, t0, t_build, 0, rows, compared, told)
        return 0


def evidence(prop, spec, tier, seed, tasks, tmp, t0, t_build, violations, rows, compared, told=None):
    total = {}
    counts = {}
    samples = []
    distinct = set()
    per = {}
    for i, t in enumerate(tasks):
        o = t.outcome
        if o is None:
            continue
        for k, v in o.stats.items():
            total[k] = total.get(k, 0) + v
        for k, v in o.counts.items():
            counts[k] = counts.get(k, 0) + v
        key = "%s/%s %s" % (t.job["bin"], t.job["variant"], " ".join("%s=%s" % kv for kv in t.job["args"].items()))
        d = per.setdefault(key, {"cases": 0, "calls": 0, "abandoned": 0, "process_s": 0})
        d["process_s"] = round(d["process_s"] + t.took, 1)
        d["cases"] += o.stats.get("cases", 0)
        d["calls"] += o.stats.get("ops", 0)
        d["abandoned"] += o.stats.get("abandoned", 0)
        if len(samples) < 6 and o.samples:
            samples.append("%s: %s" % (t.job["bin"], o.samples[-1][:500]))
        p = [x[4:] for x in t.args if x.startswith("out=")]
        if p and os.path.exists(p[0]):
            with open(p[0], "rb") as f:
                b = f.read()
            salt = hash(t.job["bin"])
            distinct.update((salt, h) for h in struct.unpack("<%dQ" % (len(b) // 8), b))
    if violations == 0:
        if not total.get("cases") or not distinct:
            raise NoVerdict("nothing was observed")
        for name, least in spec.get("expect", {}).items():
            if counts.get(name, 0) < least and total.get(name, 0) < least:
                raise NoVerdict("too little observed: %s=%d" % (name, counts.get(name, total.get(name, 0))))
        if total.get("abandoned", 0) * 2 > total["cases"]:
            raise NoVerdict("most cases were abandoned for what other checks report")
    cov = {
        "evaluations": total.get("cases", 0),
        "distinct_nontrivial": len(distinct),
        "rule": plans.RULE + " " + spec["rule"],
        "samples": samples or ["(the first case failed)"],
        "calls_monitored": total.get("ops", 0),
        "calls_refused_as_predicted": total.get("refused", 0),
        "element_events": total.get("events", 0),
        "elements_made": total.get("made", 0),
        "elements_cloned": total.get("clones", 0),
        "elements_dropped": total.get("drops", 0),
        "comparisons_counted": total.get("cmps", 0),
        "panics_injected": total.get("faults", 0),
        "cases_abandoned": total.get("abandoned", 0),
        "counters": counts,
        "runs": per,
        "build_s": round(t_build, 1),
    }
    if compared:
        cov["cases_compared_between_builds"] = compared
    if told:
        cov["hostile_programs"] = told
    if rows:
        cov["known_findings_observed"] = rows
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": spec.get("level", "exploration"),
                "coverage": cov,
                "assumptions": plans.ASSUMPTIONS + spec.get("assumptions", []),
                "wall_s": round(time.time() - t0, 1),
                "violations": violations,
            },
            f,
            indent=1,
        )
        f.write("\n")


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if "hostile" in r:
        words = hostile.again(os.path.join(BUILD, "hostile"), os.path.join(BUILD, "hostile-target"), clean_env(), os.path.join(HARNESS, "Cargo.lock"), r["source"])
        print(words[-4000:])
        return 1 if hostile.UB.search(words) else 0
    job = {"variant": r["variant"], "bin": r["engine"], "args": {}}
    build([job])
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        o = run_one(r["variant"], r["engine"], [a for a in r["args"] if not a.startswith(("out=", "digest="))], tmp, "replay", time.time() + 600)
    print(o.tail)
    print(o.what, o.kinds, o.msg)
    return 0 if o.what == "ok" else 1


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        tier = a.pop()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & 0xFFFFFFFF
        if a == ["--setup"]:
            build([{"variant": "dbg", "bin": "rel", "args": {}}])
            return 0
        if len(a) != 1 or a[0] not in plans.PLANS:
            print(__doc__)
            return 2
        return check(a[0], tier, seed)
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
