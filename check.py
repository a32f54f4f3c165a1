#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
check.py --setup                                          build everything once
check.py --replay FILE                                    run one recorded violation again

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failed, time ran out)."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
HOST = "x86_64-unknown-linux-gnu"
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)
WRAP = "-Wl,--wrap=adv_acontext_set_dependent,--wrap=adv_acontext_new_independent"
MIRI = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"

MON = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P20 P24 P25 P26 P27 P28".split()
# concurrent workloads run again under the race detector (scenario, rounds quick, rounds thorough, size)
TSAN = {
    "P08": [("isolated", 1500, 20000, 3), ("drop", 1500, 20000, 3), ("standing", 1500, 20000, 3), ("crowd", 80, 2000, 4)],
    "P09": [("shared", 1500, 20000, 3)],
    "P10": [("readers", 1500, 20000, 3)],
    "P25": [("drivers", 600, 8000, 2)],
}
# and under the undefined-behaviour interpreter (scenario, schedules quick, thorough)
MIRIS = {
    "P08": [("isolated", 16, 160), ("drop", 16, 160), ("standing", 16, 160)],
    "P09": [("shared", 16, 160)],
    "P10": [("readers", 16, 160)],
}


# refusals must not depend on debug assertions: these run a second time without
PLAIN = {"P19": "fnm", "P20": "mon", "P26": "mon"}


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.replay = replay


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUST_BACKTRACE", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, cwd=VERIF, e=None, limit=800):
    """-> (exit code or -signal or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace")


def errors(out):
    keep = []
    lines = out.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("error"):
            keep += lines[i:i + 8]
        if len(keep) > 60:
            break
    return "\n".join(keep) or "\n".join(lines[-30:])


# ---------------------------------------------------------------- builds
def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(x.read() + b"\0")
    return h.hexdigest()


def fresh(target):
    """cargo goes by file times; make it look at what the files say"""
    d = os.path.join(BUILD, target)
    stamp = os.path.join(d, "repo.sha256")
    now = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for p in glob.glob(d + "/**/.fingerprint/advantage-*", recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def cargo(crate, target, *extra, toolchain=None, flags=None, plain=False):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--release", "--offline", *extra]
    kw = {"CARGO_TARGET_DIR": os.path.join(BUILD, target)}
    if plain:
        kw.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false")
    if flags:
        kw["RUSTFLAGS"] = flags
    fresh(target)
    rc, out = run(cmd, cwd=os.path.join(VERIF, crate), e=env(**kw), limit=850)
    return rc == 0, out


def build_mon():
    return cargo("mon", "mon")


def build_fnm():
    return cargo("fnm", "mon")


def build_plain(crate):
    return cargo(crate, "plain", plain=True)


def build_ffim():
    return cargo("ffim", "ffim")


def build_tsan():
    return cargo("conc", "tsan", "-Zbuild-std", "--target", HOST, toolchain="+nightly", flags="-Zsanitizer=thread")


def cxx(compiler, probe, out, *flags):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    src = sorted(glob.glob(os.path.join(REPO, "src/cxx/*.cpp")))
    cmd = [compiler, "-std=c++14", "-O1", "-g", *flags, "-D_IN_ADV", "-I", REPO + "/include", "-I", REPO + "/src/cxx",
           os.path.join(VERIF, "cxxm/drive.cpp"), *src, WRAP, probe, "-lpthread", "-ldl", "-lm", "-o", out]
    rc, o = run(cmd)
    return rc == 0, o


def build_cxx():
    ok, o = cargo("cxxm", "cxx")
    if not ok:
        return ok, o
    return cxx("g++", BUILD + "/cxx/release/libcxxprobe.a", BUILD + "/cxx/driver/drive")


def build_cxxasan():
    ok, o = cargo("cxxm", "cxxasan", "--target", HOST, toolchain="+nightly", flags="-Zsanitizer=address")
    if not ok:
        return ok, o
    return cxx("clang++", BUILD + "/cxxasan/%s/release/libcxxprobe.a" % HOST, BUILD + "/cxxasan/driver/drive",
               "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")


def build_cxxtsan():
    ok, o = cargo("cxxm", "cxxtsan", "-Zbuild-std", "--target", HOST, toolchain="+nightly", flags="-Zsanitizer=thread")
    if not ok:
        return ok, o
    return cxx("clang++", BUILD + "/cxxtsan/%s/release/libcxxprobe.a" % HOST, BUILD + "/cxxtsan/driver/drive",
               "-fno-omit-frame-pointer", "-fsanitize=thread")


def miri(crate, args, flags, limit=850):
    fresh("miri")
    return run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", *map(str, args)], cwd=os.path.join(VERIF, crate),
               e=env(MIRIFLAGS=flags, CARGO_TARGET_DIR=BUILD + "/miri"), limit=limit)


def need(result, what):
    ok, out = result
    if not ok:
        print(errors(out))
        raise NoAnswer("%s does not build" % what)


# ---------------------------------------------------------------- one property
class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.start = time.time()
        self.quick = tier != "thorough"
        self.evidence = os.path.join(VERIF, "evidence", pid + ".json")
        self.extra = {}
        self.notes = []

    def pick(self, q, t):
        return q if self.quick else t

    def left(self):
        return max(30, (840 if self.quick else 3500) - (time.time() - self.start))

    def replay_file(self, name, body):
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%s.json" % (self.id, name))
        body = dict(body, property=self.id, tier=self.tier, seed=self.seed)
        with open(path, "w") as f:
            json.dump(body, f)
            f.write("\n")
        return path

    # a monitor binary with its own cases, evidence and VIOLATION lines
    def monitor(self, binary, evidence=None, replays=REPLAY):
        os.makedirs(os.path.dirname(self.evidence), exist_ok=True)
        rc, out = run([binary, "run", self.id, "--tier", self.tier, "--seed", str(self.seed), "--findings", FINDINGS,
                       "--evidence", evidence or self.evidence, "--replay-dir", replays], limit=self.left())
        sys.stdout.write(out)
        if rc is not None and rc < 0 and -rc in CRASHES:
            raise Violation("the monitored program died of signal %d" % -rc, self.replay_file(
                "crash", {"cmd": [binary, "run", self.id, "--tier", self.tier, "--seed", str(self.seed)]}))
        if rc == 1:
            raise Violation(None, None)
        if rc != 0:
            raise NoAnswer("the monitor ended with %s" % rc)

    def plain(self, built):
        """the same monitor compiled as users ship it: no debug assertions, no overflow checks"""
        need(built, "the monitor without debug assertions")
        ev = self.evidence + ".plain"
        try:
            self.monitor(os.path.join(BUILD, "plain/release", PLAIN[self.id]), ev, REPLAY + "/plain")
            cov = json.load(open(ev))["coverage"]
            self.extra["without debug assertions and overflow checks"] = {k: cov[k] for k in ("evaluations", "distinct_nontrivial")}
        finally:
            if os.path.exists(ev):
                os.unlink(ev)

    def tsan(self, built):
        if not built[0]:
            self.notes.append("race detector build failed: " + built[1][-300:])
            return
        exe = BUILD + "/tsan/%s/release/conc" % HOST
        jobs = []
        for sc, q, t, size in TSAN[self.id]:
            for w in range(4):
                jobs.append((sc, self.seed * 16 + w, self.pick(q, t) // 4, size))

        def one(j):
            return run([exe, *map(str, j)], e=env(TSAN_OPTIONS="halt_on_error=1 exitcode=66 second_deadlock_stack=1"), limit=self.left())
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, jobs))
        rounds = orders = 0
        counts = {}
        for j, (rc, out) in zip(jobs, results):
            cmd = {"cmd": [exe, *map(str, j)], "report": out[-6000:]}
            if "FAIL [" in out:
                raise Violation("under the race detector: " + out[out.index("FAIL ["):][:1500], self.replay_file("tsan-%s-%d" % (j[0], j[1]), cmd))
            if "WARNING: ThreadSanitizer" in out and "/repo/src/" in out:
                print(out[out.index("WARNING: ThreadSanitizer"):][:4000])
                raise Violation("the race detector reports " + re.search(r"WARNING: ThreadSanitizer: (.*)", out).group(1),
                                self.replay_file("tsan-%s-%d" % (j[0], j[1]), cmd))
            m = re.search(r"DONE rounds=(\d+) orders=(\d+) \{(.*)\}", out)
            if rc == 0 and m:
                rounds += int(m.group(1))
                orders += int(m.group(2))
                for k, v in re.findall(r'"([^"]*)": (\d+)', m.group(3)):
                    counts[k] = counts.get(k, 0) + int(v)
            else:
                self.notes.append("race detector run %s ended with %s" % (j, rc))
        self.extra["race detector"] = {"executions": rounds, "distinct interleavings seen, summed over processes": orders, "processes": len(jobs), "events": counts}

    def miri_conc(self):
        seen = {}
        for sc, q, t in MIRIS[self.id]:
            n = self.pick(q, t)
            lo = self.seed * 1000
            # one workload under many schedules, several workloads
            done = 0
            for w in range(1 if self.quick else 4):
                flags = MIRI + " -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1 -Zmiri-many-seeds=%d..%d" % (lo + w * n, lo + w * n + n)
                args = [sc, self.seed * 10 + w, 1, 1, "calm"]
                rc, out = miri("conc", args, flags, limit=self.left())
                self.judge_miri(rc, out, "miri-%s-%d" % (sc, w), {"miri": ["conc", args, flags]}, ok=lambda o: o.count("DONE") > 0)
                done += out.count("DONE")
            seen[sc] = done
        self.extra["undefined-behaviour interpreter"] = {"schedules run to the end": seen}

    def judge_miri(self, rc, out, name, body, ok):
        body["report"] = out[-6000:]
        if "FAIL [" in out:
            raise Violation("under the interpreter: " + out[out.index("FAIL ["):][:1500], self.replay_file(name, body))
        m = re.search(r"error: (Undefined Behavior.*|memory leaked.*|.*evaluated program deadlocked.*|abnormal termination.*)", out)
        if m and ("/repo/src/" in out or "deadlock" in m.group(0)):
            print(out[m.start():][:4000])
            raise Violation("the interpreter reports " + m.group(1), self.replay_file(name, body))
        if rc != 0 or not ok(out):
            self.notes.append("interpreter run %s ended with %s: %s" % (name, rc, out[-200:]))

    def drive(self, exe, rounds, steps, prefix=(), procs=8, seed0=0, e=None, threads=0):
        """C++ histories in several processes -> list of (seed, rc, out)"""
        seeds = [self.seed * 100 + seed0 + k for k in range(procs)]
        prints = [os.path.join(BUILD, "prints-%s-%d" % (self.id, s)) for s in seeds]

        def one(k):
            x = dict(e or env())
            x["DRIVE_PRINTS"] = prints[k]
            return run([*prefix, exe, str(seeds[k]), str(rounds), str(steps), *(["threads", str(threads)] if threads else [])], e=x, limit=self.left())
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(procs)))
        for p in prints:
            if os.path.exists(p):
                with open(p) as f:
                    self.prints.update(f.read().split())
                os.unlink(p)
        return [(s, rc, out) for s, (rc, out) in zip(seeds, res)]

    def tally(self, results, exe):
        for s, rc, out in results:
            for k, v in re.findall(r"^KIND ([^|]*)\|(\d+)$", out, re.M):
                self.kinds[k] = self.kinds.get(k, 0) + int(v)
            m = re.search(r"^DONE rounds=(\d+) distinct=(\d+) events=(\d+) checks=(\d+) recordings=(\d+) passed=(\d+)", out, re.M)
            if m:
                self.events["times a history went on in another thread"] = self.events.get("times a history went on in another thread", 0) + int(m.group(6))
                self.rounds += int(m.group(1))
                self.events["calls"] = self.events.get("calls", 0) + int(m.group(3))
                self.events["values compared"] = self.events.get("values compared", 0) + int(m.group(4))
                self.events["recordings compared"] = self.events.get("recordings compared", 0) + int(m.group(5))
            m = re.search(r"^SAMPLE (.*)$", out, re.M)
            if m and len(self.samples) < 4:
                self.samples.append("seed %d: %s" % (s, m.group(1)))

    def p22(self, built):
        need(built, "the C++ driver")
        self.prints, self.kinds, self.rounds, self.events, self.samples = set(), {}, 0, {}, []
        exe = BUILD + "/cxx/driver/drive"
        # the headers alone are a valid program in every dialect
        heads = 0
        for comp in ("g++", "clang++"):
            for std in ("c++11", "c++14", "c++17", "c++20"):
                rc, out = run([comp, "-std=" + std, "-fsyntax-only", "-Wall", "-I", REPO + "/include", os.path.join(VERIF, "cxxm/header.cpp")])
                if rc != 0:
                    raise Violation("the headers do not compile as %s with %s: %s" % (std, comp, out[:1500]), self.replay_file("header", {"cmd": [comp, "-std=" + std], "report": out[:3000]}))
                heads += 1
        for steps, rounds, threads in ((40, self.pick(12000, 300000), 0), (150, self.pick(4000, 100000), 0), (600, self.pick(400, 10000), 0),
                                       (60, self.pick(3000, 80000), 4), (300, self.pick(600, 15000), 3)):
            res = self.drive(exe, rounds, steps, seed0=steps, threads=threads)
            for s, rc, out in res:
                body = {"cmd": [exe, str(s), str(rounds), str(steps), *(["threads", str(threads)] if threads else [])], "report": out[-6000:]}
                if "FAIL [" in out:
                    raise Violation(out[out.index("FAIL ["):][:2500], self.replay_file("drive-%d" % s, body))
                if rc is not None and rc < 0 and -rc in CRASHES:
                    print(out[-3000:])
                    raise Violation("a C++ program using the wrapper died of signal %d" % -rc, self.replay_file("drive-%d" % s, body))
                if rc != 0 or "DONE" not in out:
                    raise NoAnswer("the C++ driver ended with %s: %s" % (rc, out[-500:]))
            self.tally(res, exe)
        self.events["header dialects"] = heads
        self.own_evidence("random histories of C++ wrapper use (contexts created, moved, assigned over, destroyed; variables created, copied, assigned, self-assigned, moved, swapped, kept in containers, destroyed; every operator and function with variables and doubles on either side; whole expressions with temporaries; plain-double overloads; in one thread, and several histories at once in several threads that pass them on to each other), every step also made on the Rust interface; every object is compared after each step that touches it, bystanders regularly, and each recording (arguments, results, which variables they are, number of operations, values and derivatives at four points). Distinct: histories")

    def p23(self, built_asan, built_plain, built_ffim, built_tsan):
        need(built_asan, "the instrumented C++ driver")
        self.prints, self.kinds, self.rounds, self.events, self.samples = set(), {}, 0, {}, []
        exe = BUILD + "/cxxasan/driver/drive"
        opts = "abort_on_error=0 exitcode=99 detect_stack_use_after_return=1 detect_leaks=%d malloc_context_size=30"
        for steps, rounds, threads in ((40, self.pick(1500, 40000), 0), (150, self.pick(500, 12000), 0), (500, self.pick(60, 1500), 0), (100, self.pick(700, 20000), 4)):
            res = self.drive(exe, rounds, steps, seed0=steps, threads=threads, e=env(ASAN_OPTIONS=opts % 1, UBSAN_OPTIONS="print_stacktrace=1"))
            if any("LeakSanitizer has encountered a fatal error" in out for _, _, out in res):
                self.notes.append("leak detection at exit is not possible here; allocation growth and valgrind decide about leaks")
                res = self.drive(exe, rounds, steps, seed0=steps, threads=threads, e=env(ASAN_OPTIONS=opts % 0, UBSAN_OPTIONS="print_stacktrace=1"))
            for s, rc, out in res:
                self.judge_memory(s, rc, out, exe, rounds, steps, threads)
            self.tally(res, exe)
        self.events["histories under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer"] = self.rounds
        # several threads, each with objects of its own: races on what the wrapper or the interface share among them
        if built_tsan[0]:
            before = self.rounds
            exe_t = BUILD + "/cxxtsan/driver/drive"
            for steps, rounds, threads in ((60, self.pick(600, 15000), 4), (200, self.pick(150, 4000), 3)):
                res = self.drive(exe_t, rounds, steps, seed0=steps, threads=threads, e=env(TSAN_OPTIONS="halt_on_error=1 exitcode=66 second_deadlock_stack=1"))
                for s, rc, out in res:
                    body = {"cmd": [exe_t, str(s), str(rounds), str(steps), "threads", str(threads)], "report": out[-6000:]}
                    if "WARNING: ThreadSanitizer" in out and "/repo/" in out:
                        print(out[out.index("WARNING: ThreadSanitizer"):][:4000])
                        raise Violation("threads that use objects of their own only: the race detector reports " + re.search(r"WARNING: ThreadSanitizer: (.*)", out).group(1), self.replay_file("tsan-%d" % s, body))
                    if rc is not None and rc < 0 and -rc in CRASHES:
                        raise Violation("a C++ program with several threads died of signal %d" % -rc, self.replay_file("tsan-%d" % s, body))
                    if rc != 0:
                        self.notes.append("race detector run %d ended with %s: %s" % (s, rc, out[-200:]))
                self.tally(res, exe_t)
            self.events["histories under ThreadSanitizer"] = self.rounds - before
        else:
            self.notes.append("no race detector run: " + built_tsan[1][-200:])
        # uninstrumented, under valgrind
        if built_plain[0]:
            before = self.rounds
            n = self.pick(40, 1500)
            res = self.drive(BUILD + "/cxx/driver/drive", n, 120, seed0=7,
                             prefix=["valgrind", "-q", "--error-exitcode=98", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect", "--show-leak-kinds=definite,indirect", "--num-callers=25"])
            for s, rc, out in res:
                if rc == 98:
                    print(out[:4000])
                    raise Violation("valgrind reports an error", self.replay_file("valgrind-%d" % s, {"cmd": ["valgrind", "-q", "--leak-check=full", BUILD + "/cxx/driver/drive", str(s), str(n), "120"], "report": out[:6000]}))
                if rc != 0:
                    self.notes.append("valgrind run %d ended with %s: %s" % (s, rc, out[-200:]))
            self.tally(res, exe)
            self.events["histories under valgrind"] = self.rounds - before
        else:
            self.notes.append("no valgrind run: " + built_plain[1][-200:])
        # the C interface alone: interpreter, leak counting
        need(built_ffim, "the C interface driver")
        n = self.pick(4000, 100000)
        rc, out = run([BUILD + "/ffim/release/ffim", "hist", str(self.seed), str(n), "60"], limit=self.left())
        body = {"cmd": [BUILD + "/ffim/release/ffim", "hist", str(self.seed), str(n), "60"], "report": out[-4000:]}
        if "FAIL [ffi:leak]" in out:
            raise Violation(out[out.index("FAIL ["):][:1500], self.replay_file("hist", body))
        if rc is not None and rc < 0 and -rc in CRASHES:
            raise Violation("a program using the C interface died of signal %d" % -rc, self.replay_file("hist", body))
        m = re.search(r"DONE rounds=(\d+) .*blocks_grown=(-?\d+)", out)
        if m:
            self.events["C histories with live allocations counted"] = int(m.group(1))
        elif "FAIL [" not in out:
            self.notes.append("C history run ended with %s: %s" % (rc, out[-200:]))
        jobs = [(self.seed * 50 + k, self.pick(6, 60), self.pick(30, 60)) for k in range(8)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            first = miri("ffim", ["hist", 1, 1, 3], MIRI, limit=self.left())
            res = list(ex.map(lambda j: miri("ffim", ["hist", *j], MIRI, limit=self.left()), jobs)) if first[0] is not None else []
        done = 0
        for j, (rc, out) in zip(jobs, res):
            if "FAIL [" in out and "FAIL [ffi:leak]" not in out:
                # wrong values are another property's matter
                self.notes.append("interpreted history differs: " + out[out.index("FAIL ["):][:200])
                continue
            self.judge_miri(rc, out, "miri-hist-%d" % j[0], {"miri": ["ffim", ["hist", *j], MIRI]}, ok=lambda o: "DONE" in o)
            m = re.search(r"DONE rounds=(\d+)", out)
            done += int(m.group(1)) if m else 0
        self.events["C histories under the undefined-behaviour interpreter"] = done
        self.own_evidence("the random C++ histories of P22 and the random C histories of P21 (every object freed in the end, in random order, contexts before or after their variables), with the wrapper and the library instrumented by AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer, by ThreadSanitizer (several threads with objects of their own that are passed on), uninstrumented under valgrind, and the C interface in Miri; the same histories repeated must not need more memory. Distinct: histories")

    def judge_memory(self, s, rc, out, exe, rounds, steps, threads=0):
        body = {"cmd": [exe, str(s), str(rounds), str(steps), *(["threads", str(threads)] if threads else [])], "report": out[-8000:]}
        m = re.search(r"(ERROR: (?:Address|Leak)Sanitizer: .*|runtime error: .*)", out)
        if m:
            print(out[m.start():][:4000])
            raise Violation("sanitizer report: " + m.group(1)[:300], self.replay_file("asan-%d" % s, body))
        if "FAIL [cxx:growth]" in out:
            raise Violation(out[out.index("FAIL ["):][:1500], self.replay_file("asan-%d" % s, body))
        if "FAIL [" in out:
            # wrong values are another property's matter
            self.notes.append("history differs: " + out[out.index("FAIL ["):][:300])
            return
        if rc is not None and rc < 0 and -rc in CRASHES:
            print(out[-3000:])
            raise Violation("a C++ program using the wrapper died of signal %d" % -rc, self.replay_file("asan-%d" % s, body))
        if rc != 0 or "DONE" not in out:
            raise NoAnswer("the instrumented driver ended with %s: %s" % (rc, out[-500:]))

    def own_evidence(self, rule):
        kinds = {k: v for k, v in sorted(self.kinds.items())}
        ev = {"property": self.id, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "exploration",
              "coverage": dict({"evaluations": self.rounds, "distinct_nontrivial": len(self.prints), "rule": rule, "samples": self.samples, "steps by kind": kinds}, **self.events),
              "assumptions": [], "wall_s": round(time.time() - self.start, 2), "violations": 0}
        self.write(ev)

    def write(self, ev):
        os.makedirs(os.path.dirname(self.evidence), exist_ok=True)
        tmp = self.evidence + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, self.evidence)

    def finish(self, violations, text=""):
        """evidence always describes this run, also one that was cut short"""
        ev = None
        if os.path.exists(self.evidence) and os.path.getmtime(self.evidence) >= self.start - 1:
            try:
                ev = json.load(open(self.evidence))
            except ValueError:
                pass
        if ev is None:
            ev = {"property": self.id, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "exploration",
                  "coverage": {"evaluations": getattr(self, "rounds", 0), "distinct_nontrivial": 0, "rule": "run cut short", "samples": [text[:500]]}, "assumptions": []}
        ev["coverage"].update(self.extra)
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        ev["wall_s"] = round(time.time() - self.start, 2)
        ev["violations"] = max(violations, ev.get("violations", 0))
        self.write(ev)

    def go(self):
        if os.path.exists(self.evidence):
            os.unlink(self.evidence)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            if self.id in MON:
                mon = ex.submit(build_mon)
                tsan = ex.submit(build_tsan) if self.id in TSAN else None
                plain = ex.submit(build_plain, PLAIN[self.id]) if self.id in PLAIN else None
                need(mon.result(), "the monitor")
                if tsan:
                    tsan.result()
                if plain:
                    plain.result()
                self.monitor(BUILD + "/mon/release/mon")
                if plain:
                    self.plain(plain.result())
                if tsan:
                    self.tsan(tsan.result())
                if self.id in MIRIS:
                    self.miri_conc()
            elif self.id == "P19":
                ok, out = build_fnm()
                if not ok:
                    # is it only the declarations of functions that no longer compile?
                    need(build_mon(), "the monitor")
                    print(errors(out))
                    raise Violation("supported ways of declaring functions do not compile", self.replay_file("compile", {"cmd": ["cargo", "build", "in", "fnm"], "report": errors(out)}))
                plain = build_plain("fnm")
                self.monitor(BUILD + "/mon/release/fnm")
                self.plain(plain)
            elif self.id == "P21":
                need(build_ffim(), "the C interface driver")
                self.monitor(BUILD + "/ffim/release/ffim")
            elif self.id == "P22":
                self.p22(build_cxx())
            elif self.id == "P23":
                a, b, c, d = ex.submit(build_cxxasan), ex.submit(build_cxx), ex.submit(build_ffim), ex.submit(build_cxxtsan)
                self.p23(a.result(), b.result(), c.result(), d.result())
            else:
                raise NoAnswer("no such property")


def setup():
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        jobs = {n: ex.submit(f) for n, f in [
            ("mon and fnm", lambda: (lambda a, b: (a[0] and b[0], a[1] + b[1]))(build_mon(), build_fnm())),
            ("mon and fnm without debug assertions", lambda: (lambda a, b: (a[0] and b[0], a[1] + b[1]))(build_plain("mon"), build_plain("fnm"))),
            ("tsan", build_tsan), ("ffim", build_ffim), ("cxx", build_cxx), ("cxxasan", build_cxxasan), ("cxxtsan", build_cxxtsan),
            ("miri", lambda: (lambda r, s: (r[0] == 0 and s[0] == 0, r[1] + s[1]))(miri("conc", ["shared", 1, 0, 1, "calm"], MIRI), miri("ffim", ["hist", 1, 0, 1], MIRI))),
        ]}
        bad = 0
        for n, j in jobs.items():
            ok, out = j.result()
            print("%s: %s" % (n, "built" if ok else "FAILED"))
            if not ok:
                print(errors(out))
                bad = 1
    return bad


def replay(path):
    r = json.load(open(path))
    if "case" in r:
        if os.path.basename(os.path.dirname(os.path.abspath(path))) == "plain":
            need(build_plain(PLAIN[r["property"]]), "the monitor")
            exe = BUILD + "/plain/release/" + PLAIN[r["property"]]
        elif r["property"] == "P19":
            need(build_fnm(), "the monitor")
            exe = BUILD + "/mon/release/fnm"
        elif r["property"] == "P21":
            need(build_ffim(), "the monitor")
            exe = BUILD + "/ffim/release/ffim"
        else:
            need(build_mon(), "the monitor")
            exe = BUILD + "/mon/release/mon"
        return subprocess.call([exe, "replay", path])
    if "miri" in r:
        rc, out = miri(*r["miri"])
        print(out)
        return 1 if rc else 0
    for f in (build_cxx, build_cxxasan, build_cxxtsan, build_ffim, build_tsan, build_mon):
        f()
    rc = subprocess.call(r["cmd"], env=env())
    return 1 if rc else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        return replay(a[1])
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1"))) & 0xffffffff
    except ValueError:
        seed = 1
    c = Check(a[0], "thorough" if tier == "thorough" else "quick", seed)
    try:
        c.go()
    except Violation as v:
        if v.replay:
            print(v)
            print("VIOLATION property=%s replay=%s" % (c.id, v.replay))
        c.finish(1, str(v))
        return 1
    except NoAnswer as e:
        print("no answer: %s" % e)
        c.finish(0, str(e))
        return 2
    c.finish(0)
    for n in c.notes:
        print("note: " + n)
    print("%s: held on everything explored (%.0f s)" % (c.id, time.time() - c.start))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
