#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree, runs the ones that decide a
property, and turns what they observed into a verdict.

    check.py C07                 decide a property (VERIF_SEED, VERIF_TIER)
    check.py C07 --replay FILE   run one recorded case again
    check.py --setup             make sure the toolchain is usable

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: refuted.
Anything else: no answer (a failed build, a monitor that failed itself, a run
that could not be attributed).
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"

ASAN_EXIT, TSAN_EXIT = 77, 78
CPUS = os.cpu_count() or 8


class NoAnswer(Exception):
    pass


# How each kind of build is made, and where its binaries are.
BUILDS = {
    "opt": dict(cmd=["cargo", "build", "--release"], dir="opt", bin="release"),
    "dev": dict(cmd=["cargo", "build"], dir="dev", bin="debug"),
    "asan": dict(
        cmd=["cargo", "+nightly", "build", "--release", "--target", TRIPLE],
        dir="asan",
        bin=TRIPLE + "/release",
        env={"RUSTFLAGS": "-Zsanitizer=address --cfg sanitize_run"},
        run={"ASAN_OPTIONS": f"exitcode={ASAN_EXIT}:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"},
    ),
    "tsan": dict(
        cmd=["cargo", "+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE],
        dir="tsan",
        bin=TRIPLE + "/release",
        env={"RUSTFLAGS": "-Zsanitizer=thread --cfg sanitize_run"},
        run={"TSAN_OPTIONS": f"exitcode={TSAN_EXIT}:halt_on_error=1:second_deadlock_stack=1"},
    ),
    "miri": dict(
        cmd=["cargo", "+nightly", "miri", "run"],
        dir="miri",
        run={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-deterministic-floats"},
    ),
}


def stage(kind, count, secs, binary=None, hang=90, small=False, threads=CPUS, only_sanitizer=False, procs=1):
    return dict(
        kind=kind, count=count, secs=secs, bin=binary, hang=hang, small=small,
        threads=threads, only_sanitizer=only_sanitizer, procs=procs,
    )


# Cases per quick run: about 30 s on 8 idle cores.
QUICK = {
    "C01": 800_000, "C02": 200_000, "C03": 2_000_000, "C04": 900_000, "C05": 700_000,
    "C06": 400_000, "C07": 280_000, "C08": 90_000, "C09": 170_000, "C10": 180_000,
    "C11": 1_000_000, "C12": 1_600_000, "C13": 2_600_000, "C14": 280_000, "C15": 40_000,
    "C16": 1_800_000, "C20": 350_000,
}
DEEP = 1200


def stages(prop, thorough):
    b = prop.lower()
    if prop == "C17":
        if thorough:
            return [
                stage("opt", 10**9, 420),
                stage("tsan", 10**9, 420, small=True, hang=400, threads=3),
                stage("miri", 10**9, 420, small=True, threads=1, procs=CPUS, hang=2000),
            ]
        return [stage("opt", 8_000, 60), stage("tsan", 2_400, 60, small=True, hang=400, threads=3)]
    if prop == "C18":
        if thorough:
            return [stage("opt", 10**9, 240), stage("asan", 10**9, 300, hang=200)] + [
                stage("asan", 10**9, 60, binary=x, hang=200, only_sanitizer=True)
                for x in ["c02", "c05", "c07", "c09", "c10", "c14", "c15"]
            ] + [stage("miri", 10**9, 420, small=True, threads=1, procs=CPUS, hang=2000)]
        return [stage("opt", 220_000, 60), stage("asan", 24_000, 60, hang=200)]
    if prop == "C19":
        return [stage("dev", 10**9 if thorough else 700, DEEP if thorough else 100, hang=200)]
    return [stage("opt", 10**9 if thorough else QUICK[prop], DEEP if thorough else 120)]


RULES = {
    "C01": "a case is a random history of inserts into one tree, iterated in between; non-trivial when at least two data were accepted",
    "C02": "a case is a tree with inserts of accepted and refusable data on, next to and beyond the border; non-trivial when something was refused by a tree that holds data",
    "C03": "a case is a point tree on an exactly representable grid and its retrievals, compared with a model of the cells; non-trivial when a retrieval yields data",
    "C04": "a case is a bounds tree on an exactly representable grid and its retrievals, compared with a model of the cells; non-trivial when a retrieval yields data",
    "C05": "a case is a tree and its display, iteration and retrieval, compared with a model of the cells; non-trivial when the tree is divided",
    "C06": "a case is a Euclidean tree and several find and find_r calls, compared with a linear scan by an independent distance; non-trivial when something was found among at least two data",
    "C07": "a case is a Euclidean tree and several knn and knn_r calls, compared with a linear scan by an independent distance; non-trivial when at least two results were returned",
    "C08": "a case is a Euclidean tree and several sorted iterations (whole, prefix, interleaved), compared with a linear scan; non-trivial when at least two results were yielded",
    "C09": "a case is a spherical tree and all search methods for several comparators, compared with a linear scan; non-trivial when something was found among at least two data",
    "C10": "a case is one set of data in several trees (order, configuration, kind of tree, refused data) and the agreement of all searches; non-trivial when at least two data were compared",
    "C11": "a case is a set of shape pairs and their distances by every public route, compared with an independent planar oracle; non-trivial when a positive distance was compared",
    "C12": "a case is a set of pairs on the sphere and their distances by every public route, compared with an oracle on unit vectors; non-trivial when a positive distance was compared",
    "C13": "a case is a chain of nested boxes and a comparator, watched for a box distance above that of something inside; non-trivial when a positive distance was compared",
    "C14": "a case is a tree state with many comparators, k and r, answered or refused as documented; non-trivial when an error was observed",
    "C15": "a case is one set of data and comparators in every wrapping, compared with each other; non-trivial when a tree with data was compared",
    "C16": "a case is a set of geometries converted bare and as Geometry, copied and in place, compared coordinate by coordinate; non-trivial when more than one coordinate was converted",
    "C17": "a case is a tree queried repeatedly, interleaved, by several threads at once and after moving to another thread, compared with an unqueried twin; non-trivial when an answer had at least two data",
    "C18": "a case is a history of inserts, refusals, queries, moves and the drop of one tree, with a ledger of every datum and of every byte; non-trivial when at least two data were accepted",
    "C19": "a case is a large or deep tree built, queried and dropped on a bounded stack in an unoptimised build; every case is non-trivial",
    "C20": "a case is a tree whose data count how often they are examined by each query; non-trivial when a search left some data alone",
}

# A run that did not observe these has not decided anything.
MUST_SEE = {
    "C06": ["find_checked", "find_r_checked"],
    "C07": ["knn_checked", "knn_r_checked"],
    "C17": ["concurrent_answers_compared", "nested_answers_compared", "send_sync_probes"],
    "C18": ["data_released", "refused_and_released"],
    "C19": ["trees_survived"],
    "C20": ["searches_watched", "retrieves_watched"],
}

COMMON_TRUST = [
    "a finite number of executions is observed; nothing is claimed about inputs the workload never produces",
    "the oracle's own f64 arithmetic and the stated rounding slack",
]
ASSUME = {
    "C03": ["where midpoints round, exact comparison only of trees without data within the rounding error of a split line"],
    "C04": ["where midpoints round, exact comparison only of trees without data within the rounding error of a split line"],
    "C05": ["where midpoints round, exact comparison only of trees without data within the rounding error of a split line"],
    "C09": ["the ranking distance is the library's own (its correctness is C12)"],
    "C17": ["ThreadSanitizer and, in the thorough tier, Miri see only the interleavings that occur"],
    "C18": ["as_point and as_geom of the data are pure (they may panic)", "red-zone sanitizers miss some accesses; Miri covers the small cases of the thorough tier"],
    "C19": ["frame sizes are those of this compiler's unoptimised build"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(kind, binary):
    b = BUILDS[kind]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.update(b.get("env", {}))
    if kind == "miri":
        return None
    cmd = b["cmd"] + ["--offline", "--locked", "--bin", binary, "--target-dir", os.path.join(TARGET, b["dir"])]
    t = time.time()
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise NoAnswer(f"the {kind} build of {binary} failed")
    log(f"built {binary} ({kind}) in {time.time() - t:.1f} s")
    return os.path.join(TARGET, b["dir"], b["bin"], binary)


def limits(kind):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if kind in ("opt", "dev"):
            g = 24 << 30
            resource.setrlimit(resource.RLIMIT_AS, (g, g))
        os.setsid()
    return f


class Run:
    """One execution of a monitor."""

    def __init__(self, st, exe, binary, seed, tier, scratch, start=0, count=None, only=None, tag=""):
        self.st, self.binary, self.only = st, binary, only
        kind = st["kind"]
        b = BUILDS[kind]
        self.out = os.path.join(scratch, f"out{tag}.json")
        self.progress = os.path.join(scratch, f"progress{tag}")
        self.err = os.path.join(scratch, f"stderr{tag}")
        for p in (self.out, self.progress):
            if os.path.exists(p):
                os.remove(p)
        args = ["--seed", str(seed), "--tier", tier, "--hang-cpu", str(st["hang"]), "--out", self.out, "--progress", self.progress]
        if st["small"]:
            args += ["--small"]
        if only is not None:
            args += ["--only", str(only), "--max-secs", "100000"]
        else:
            n = st["count"] if count is None else count
            args += ["--start", str(start), "--count", str(n), "--threads", str(st["threads"]), "--max-secs", str(st["secs"])]
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.pop("RUST_MIN_STACK", None)
        env.pop("QTMON_STACK_KIB", None)
        env.update(b.get("run", {}))
        env["RUST_BACKTRACE"] = "0"
        if kind == "miri":
            cmd = b["cmd"] + ["--offline", "--locked", "--target-dir", os.path.join(TARGET, b["dir"]), "--bin", binary, "--"] + args
        else:
            cmd = [exe] + args
        self.cmd = cmd
        self.t = time.time()
        self.errf = open(self.err, "w")
        self.p = subprocess.Popen(
            cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=self.errf, text=True, preexec_fn=limits(kind)
        )

    def wait(self, timeout):
        # The outer watchdog is generous; its firing is no verdict.
        try:
            self.stdout, _ = self.p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.communicate()
            self.errf.close()
            self.rc, self.stderr, self.result, self.timeout = None, "", None, True
            return self
        self.timeout = False
        self.errf.close()
        self.rc = self.p.returncode
        self.stderr = open(self.err, errors="replace").read()
        self.result = None
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
            except ValueError:
                pass
        self.wall = time.time() - self.t
        return self

    def in_flight(self):
        try:
            s = open(self.progress).read()
        except OSError:
            return []
        return sorted({int(x) for x in s.replace("\0", " ").split()})

    def verdict(self):
        """held / violated / error / crashed / hung / blocked / report / timeout"""
        if self.timeout:
            return "timeout"
        kind = self.st["kind"]
        if kind == "asan" and (self.rc == ASAN_EXIT or "ERROR: AddressSanitizer" in self.stderr):
            return "report"
        if kind == "tsan" and (self.rc == TSAN_EXIT or "WARNING: ThreadSanitizer: data race" in self.stderr):
            return "report"
        if kind == "miri" and re.search(r"error: (Undefined Behavior|memory leaked)", self.stderr):
            return "report"
        if self.rc == 3 and "HANG case=" in self.stdout:
            return "hung"
        if self.rc == 3 and "BLOCKED case=" in self.stdout:
            return "blocked"
        if self.rc == 0 and self.result is not None:
            return "held"
        if self.rc == 1 and self.result is not None:
            return "violated"
        if self.rc == 2 and self.result is not None:
            return "error"
        if self.rc is not None and (self.rc < 0 or self.rc in (128 + 6, 128 + 11)):
            return "crashed"
        return "error"


def report_text(stderr):
    keep, on = [], False
    for l in stderr.splitlines():
        if "Sanitizer" in l or "error: Undefined Behavior" in l or "error: memory leaked" in l:
            on = True
        if on:
            keep.append(l)
    return "\n".join(keep[:120])


class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t = time.time()
        self.scratch = tempfile.mkdtemp(prefix="qtmon-", dir="/tmp")
        self.stage_info = []
        self.samples = []
        self.counters = {}
        self.evals = self.distinct = 0
        self.violation = None

    def add(self, st, binary, r):
        d = r.result
        if d is None:
            return
        if not st["only_sanitizer"]:
            self.evals += d["evaluations"]
            self.distinct += d["distinct_nontrivial"]
            self.samples += [f"[{st['kind']}] {s}" for s in d["samples"]]
        for k, v in d["counters"].items():
            k = k if not st["only_sanitizer"] else f"{binary}:{k}"
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v
        self.stage_info.append(
            dict(
                build=st["kind"], monitor=binary, evaluations=d["evaluations"],
                distinct_nontrivial=d["distinct_nontrivial"], stopped_by_time=d["capped"], wall_s=d["wall_s"],
            )
        )

    def replay_file(self, st, binary, case, what, message, description="", report=""):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", f"{self.prop}-{st['kind']}-{binary}-{self.seed}-{case if case is not None else 'run'}.json")
        json.dump(
            dict(
                property=self.prop, build=st["kind"], monitor=binary, seed=self.seed, tier=self.tier, case=case,
                small=st["small"], what=what, message=message, description=description, report=report,
                again=f"python3 check.py {self.prop} --replay {os.path.relpath(p, VERIF)}",
            ),
            open(p, "w"),
            indent=1,
        )
        return p

    def refute(self, st, binary, case, what, message, description="", report=""):
        p = self.replay_file(st, binary, case, what, message, description, report)
        self.violation = dict(path=p, message=message)
        log(f"{self.prop} {what}, case {case}: {message[:3000]}")
        if report:
            log(report[:4000])

    def again(self, st, exe, binary, case, tries=1):
        """Replay one case by itself."""
        for _ in range(tries):
            r = Run(st, exe, binary, self.seed, self.tier, self.scratch, only=case, tag="-again").wait(max(300, st["hang"] * 3))
            v = r.verdict()
            if v != "held":
                return v, r
        return "held", r

    def run_stage(self, st, nth):
        # every stage has case numbers, and so cases, of its own
        first = nth * 10**8
        binary = st["bin"] or self.prop.lower()
        exe = build(st["kind"], binary)
        limit = st["secs"] * 2 + st["hang"] * 2 + 200
        if st["procs"] > 1:
            # (an interpreter runs one thread at a time: several processes)
            Run(st, exe, binary, self.seed, self.tier, self.scratch, count=0).wait(600)
            step = 10**6
            rs = [
                Run(st, exe, binary, self.seed, self.tier, self.scratch, start=first + i * step, count=step, tag=f"-{i}")
                for i in range(st["procs"])
            ]
        else:
            rs = [Run(st, exe, binary, self.seed, self.tier, self.scratch, start=first)]
        rs = [r.wait(limit) for r in rs]
        for r in rs:
            self.add(st, binary, r)
        for r in rs:
            self.judge(st, exe, binary, r)
            if self.violation:
                return

    def judge(self, st, exe, binary, r):
        v = r.verdict()
        if v == "held":
            if r.result["evaluations"] == 0:
                raise NoAnswer("nothing was observed")
            return
        if v == "timeout":
            raise NoAnswer(f"{binary} ({st['kind']}) did not end within its outer time limit")
        if v == "error":
            log(r.stdout[-3000:], r.stderr[-3000:])
            bad = (r.result or {}).get("bad", [])
            raise NoAnswer(f"{binary} ({st['kind']}) failed itself (exit {r.rc}): {json.dumps(bad)[:2000]}")
        if v == "violated":
            if st["only_sanitizer"]:
                return
            bad = [b for b in r.result["bad"] if b["violation"]]
            b = bad[0]
            if self.prop == "C20" and " s, ratio " in b["message"]:
                # a cost verdict has to repeat
                w, _ = self.again(st, exe, binary, b["case"])
                if w != "violated":
                    raise NoAnswer("a cost measurement did not repeat: " + b["message"])
            self.refute(st, binary, b["case"], "refuted", b["message"], b["description"])
            return
        if v == "hung":
            case = int(re.search(r"HANG case=(\d+)", r.stdout).group(1))
            w, _ = self.again(st, exe, binary, case)
            if w in ("hung", "blocked"):
                self.refute(st, binary, case, "does not end", f"case {case} used more than {st['hang']} s of CPU time, alone as well")
                return
            if w == "violated":
                self.refute(st, binary, case, "refuted", "case violated when replayed")
                return
            raise NoAnswer(f"case {case} was slow once, but ended when replayed")
        if v == "blocked":
            # all threads were asleep for half a minute, which nothing will end
            case = int(re.search(r"BLOCKED case=(\d+)", r.stdout).group(1))
            w, _ = self.again(st, exe, binary, case, 3)
            self.refute(
                st, binary, case, "deadlock",
                f"case {case} did not end, with every thread blocked" + (", alone as well" if w == "blocked" else f" (replayed alone: {w})"),
            )
            return
        if v in ("crashed", "report"):
            text = report_text(r.stderr)
            tries = 3 if self.prop == "C17" else 1
            for case in r.in_flight():
                w, q = self.again(st, exe, binary, case, tries)
                if w in ("crashed", "report"):
                    what = "crashes" if w == "crashed" else "sanitizer report"
                    msg = (
                        f"the process died of signal {-q.rc}: {q.stderr.strip()[-400:]}"
                        if w == "crashed"
                        else (report_text(q.stderr).splitlines() or ["sanitizer report"])[0]
                    )
                    self.refute(st, binary, case, what, msg, report=report_text(q.stderr) or text)
                    return
                if w == "violated" and not st["only_sanitizer"]:
                    b = q.result["bad"][0]
                    self.refute(st, binary, case, "refuted", b["message"], b["description"])
                    return
            if v == "report":
                # the report itself is the observation, whether or not it repeats
                self.refute(st, binary, None, "sanitizer report", (text.splitlines() or ["report"])[0], report=text)
                return
            raise NoAnswer(f"{binary} ({st['kind']}) died of signal {-r.rc}, and no case in flight repeats it: {r.stderr[-500:]}")

    def evidence(self):
        if self.evals and not self.samples:
            self.samples = ["(no sample was recorded before the run stopped)"]
        d = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
            coverage=dict(
                evaluations=self.evals, distinct_nontrivial=self.distinct, rule=RULES[self.prop],
                samples=self.samples[:6], observed=self.counters, stages=self.stage_info,
            ),
            assumptions=COMMON_TRUST + ASSUME.get(self.prop, []),
            wall_s=round(time.time() - self.t, 2),
            violations=1 if self.violation else 0,
        )
        if self.violation:
            d["coverage"]["violation"] = self.violation["message"][:2000]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(d, open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w"), indent=1)

    def go(self):
        try:
            for nth, st in enumerate(stages(self.prop, self.tier == "thorough")):
                self.run_stage(st, nth)
                if self.violation:
                    break
            if not self.violation:
                if self.distinct == 0:
                    raise NoAnswer("no non-trivial case was observed")
                for k in MUST_SEE.get(self.prop, []):
                    if not self.counters.get(k):
                        raise NoAnswer(f"the run observed no {k}")
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.evidence()
        if self.violation:
            print(f"VIOLATION property={self.prop} replay={self.violation['path']}", flush=True)
            return 1
        print(
            f"{self.prop} held on {self.evals} cases ({self.distinct} distinct and non-trivial), "
            f"{round(time.time() - self.t)} s",
            flush=True,
        )
        return 0


def replay(prop, path):
    d = json.load(open(path))
    st = dict(stage(d["build"], 1, 1000, small=d["small"], hang=200), threads=1)
    c = Check(prop, d["seed"], d["tier"])
    try:
        if d["case"] is None:
            print(d["report"])
            print("recorded from a whole run; no single case repeats it")
            return 2
        exe = build(d["build"], d["monitor"])
        v, r = c.again(st, exe, d["monitor"], d["case"], 5 if prop == "C17" else 1)
        print(v)
        if r.result:
            for b in r.result["bad"]:
                print(b["message"])
                print(b["description"])
        print(report_text(r.stderr) or r.stderr[-500:])
        if v in ("violated", "crashed", "report", "hung", "blocked"):
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0 if v == "held" else 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build("opt", "c01")
        return 0
    prop = a[0]
    if prop not in RULES:
        log("unknown property", prop)
        return 2
    if len(a) == 3 and a[1] == "--replay":
        return replay(prop, a[2])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) == 2 and a[1] in ("--quick", "--thorough"):
        tier = a[1][2:]
    return Check(prop, seed, "thorough" if tier == "thorough" else "quick").go()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("no answer:", e)
        sys.exit(2)
