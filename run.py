#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py ID              run one check (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py --setup         build all checks
  run.py ID --replay F   re-run a saved failure

Exit status: 0 the property held, 1 it is broken (a VIOLATION line is printed),
2 the check itself could not run.
"""
import array
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TINYGETTEXT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++-18"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
QUIET_SAN = SAN + ["-fno-sanitize=vptr"]
TSAN = ["-fsanitize=thread"]
THREADED = {"C21"}  # built with ThreadSanitizer
COUNTED = {"C23"}   # no sanitizer, every edge of the library counted; no libFuzzer
QUIET = {"C24"}     # counts system calls that write: without the one sanitizer that makes some
COMMON = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-Wno-everything", "-I" + os.path.join(REPO, "include")]
LIB = ["-fsanitize=fuzzer-no-link", "-DVERSION=\"0.2.0\""]
HARNESS = ["-I" + os.path.join(VERIF, "harness")]
LIB_FLAGS = COMMON + SAN + LIB
HARNESS_FLAGS = COMMON + SAN + HARNESS
COUNT_LIB = ["-fsanitize-coverage=trace-pc-guard", LIB[1]]
FUZZER_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"
PROCS = 8

# id: (random cases per shard, libFuzzer runs per process, max tape length) of the quick tier
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))

# locales made for C22, from the sources the C library brings along
LOCALES = ["tr_TR.UTF-8", "tr_TR.ISO-8859-9", "az_AZ.UTF-8", "de_DE.ISO-8859-1", "fr_FR.UTF-8", "zh_TW.BIG5",
           "ja_JP.SHIFT_JIS", "lt_LT.ISO-8859-13", "ru_RU.KOI8-R", "hi_IN.UTF-8"]
LOCPATH = os.path.join(BUILD, "locales")

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:handle_abort=1:allocator_may_return_null=0:hard_rss_limit_mb=3000:"
                    "quarantine_size_mb=16:malloc_context_size=8:detect_stack_use_after_return=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=4",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LC_ALL": "C",
    "LOCPATH": LOCPATH,
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
})


class Broken(Exception):
    pass


def sha(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def content(paths):
    out = []
    for p in paths:
        out.append(os.path.basename(p))
        with open(p, "rb") as f:
            out.append(f.read())
    return out


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return "cannot compile %s:\n%s" % (src, r.stdout.decode(errors="replace"))
    os.replace(tmp, obj)
    return None


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    headers = sorted(glob.glob(os.path.join(REPO, "include/**/*.hpp"), recursive=True) +
                     glob.glob(os.path.join(REPO, "src/*.hpp")))
    sources = sorted(glob.glob(os.path.join(REPO, "src/*.cpp")))
    hheaders = sorted(glob.glob(os.path.join(VERIF, "harness/*.hpp")))
    hsources = sorted(glob.glob(os.path.join(VERIF, "harness/*.cpp")))
    if not sources:
        raise Broken("no sources in " + REPO)
    if "C22" in ids:
        build_locales()
    inc = content(headers)
    jobs = []

    def obj(src, flags, more):
        o = os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + sha([src] + flags + more + content([src])) + ".o")
        jobs.append((src, o, flags))
        return o
    hinc = inc + content(hheaders)
    lib, har, props = {}, {}, {}
    san_of = {i: tuple(TSAN if i in THREADED else QUIET_SAN if i in QUIET else [] if i in COUNTED else SAN) for i in ids}
    for san in sorted(set(san_of.values())):
        f = COMMON + list(san)
        more = LIB if list(san) in (SAN, QUIET_SAN) else LIB[1:] if san else COUNT_LIB
        lib[san] = [obj(s, f + more, inc) for s in sources]
        har[san] = [obj(s, f + HARNESS, hinc) for s in hsources]
    for i in ids:
        props[i] = obj(os.path.join(VERIF, "harness/props", i + ".cpp"), COMMON + list(san_of[i]) + HARNESS, hinc)
    with ThreadPoolExecutor(PROCS) as ex:
        for err in ex.map(compile_one, jobs):
            if err:
                raise Broken(err)
    bins = {}

    def link(i):
        objs = [props[i]] + har[san_of[i]] + lib[san_of[i]]
        b = os.path.join(BUILD, i + "-" + sha(objs))
        if not os.path.exists(b):
            tmp = "%s.%d.tmp" % (b, os.getpid())
            more = [FUZZER_LIB] if san_of[i] else []
            r = subprocess.run([CXX] + list(san_of[i]) + ["-o", tmp] + objs + more + ["-lstdc++", "-lm", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return i, None, r.stdout.decode(errors="replace")
            os.replace(tmp, b)
        return i, b, None
    with ThreadPoolExecutor(PROCS) as ex:
        for i, b, err in ex.map(link, ids):
            if err:
                raise Broken("cannot link %s:\n%s" % (i, err))
            bins[i] = b
    prune(set(sum(list(lib.values()) + list(har.values()), []) + list(props.values()) + list(bins.values())))
    return bins


def build_locale(name):
    dest = os.path.join(LOCPATH, name)
    if os.path.isdir(dest):
        return
    tmp = "%s.%d.tmp" % (dest, os.getpid())
    lang, charset = name.split(".", 1)
    # a locale that cannot be made is left out (the harness notes it in its evidence)
    subprocess.run(["localedef", "--no-archive", "--no-warnings=ascii", "-i", lang, "-f", charset, tmp],
                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.isdir(tmp):
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


def build_locales():
    os.makedirs(LOCPATH, exist_ok=True)
    if shutil.which("localedef"):
        with ThreadPoolExecutor(PROCS) as ex:
            list(ex.map(build_locale, LOCALES))


def prune(keep):
    """drop build products that were not used for a while"""
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f != "locales"]
    total = 0
    now = time.time()
    for f in keep:
        try:
            os.utime(f)
        except OSError:
            pass
    aged = []
    for f in files:
        try:
            st = os.stat(f)
        except OSError:
            continue
        total += st.st_size
        if f not in keep and now - st.st_mtime > 3600:
            aged.append((st.st_mtime, st.st_size, f))
    for _, size, f in sorted(aged):
        if total < 1500e6:
            break
        try:
            os.remove(f)
            total -= size
        except OSError:
            pass


class Job:
    def __init__(self, name, cmd, cwd):
        self.name = name
        self.cmd = cmd
        self.out = os.path.join(cwd, name + ".json")
        self.fail = os.path.join(cwd, name + ".fail")
        self.log = os.path.join(cwd, name + ".log")
        self.cwd = cwd
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen([c.replace("@OUT@", self.out).replace("@FAIL@", self.fail) for c in self.cmd],
                                     stdin=subprocess.DEVNULL, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
                                     cwd=self.cwd, env=ENV)
        return self

    def text(self):
        try:
            with open(self.log, "rb") as f:
                return f.read()[-6000:].decode(errors="replace")
        except OSError:
            return ""

    def failed(self):
        return self.proc.returncode != 0


def run_jobs(jobs, wall):
    """Runs all jobs at once; returns the first failed one in order (or None)."""
    for j in jobs:
        j.start()
    end = time.time() + wall
    stopped = []
    for j in jobs:
        while j.proc.poll() is None:
            if time.time() > end:
                j.proc.kill()
                stopped.append(j.name)
            time.sleep(0.02)
    for j in jobs:
        if j.failed() and j.name not in stopped:
            return j
    if stopped:
        print("note: out of wall time, stopped: " + " ".join(stopped))
    return None


def read_fail(path):
    r = {"case": -1, "phase": "", "kind": "crash", "detail": ""}
    try:
        with open(path, "rb") as f:
            lines = f.read().decode("latin-1").split("\n")
    except OSError:
        return None
    if len(lines) >= 3:
        r["case"] = int(lines[0].split()[1])
        r["phase"] = lines[1][6:]
        r["kind"] = lines[2][5:]
        r["detail"] = "\n".join(lines[3:])
    return r


def replay_once(binary, tape, work, n):
    j = Job("replay%s" % n, [binary, "replay", tape, "--fail", "@FAIL@"], work).start()
    try:
        j.proc.wait(timeout=300)
    except subprocess.TimeoutExpired:
        j.proc.kill()
        j.proc.wait()
    return j


def confirm(pid, binary, job, work, seed):
    """Shrinks and replays a failure. Returns the replay path, or None when it does not reproduce."""
    dest = os.path.join(VERIF, "replays", pid)
    os.makedirs(dest, exist_ok=True)
    info = read_fail(job.fail)
    log = job.text()
    if info is None:
        info = {"case": -1, "phase": "generated", "kind": "crash", "detail": ""}
    if info["phase"].startswith("example"):
        for n in range(2):
            j = Job("again%d" % n, [binary, "examples", "--out", "@OUT@", "--fail", "@FAIL@"], work)
            if run_jobs([j], 300) is None:
                return None
        path = os.path.join(dest, "example.txt")
        with open(path, "w") as f:
            f.write("property %s\nmode examples\n%s\nkind %s\n%s\n%s\n" % (pid, info["phase"], info["kind"], info["detail"], log))
        print("%s: %s: %s" % (info["phase"], info["kind"], info["detail"].strip()[:3000]))
        if info["kind"] in ("crash", "hang"):
            print(log[-3000:])
        return path
    tape = job.fail + ".tape"
    art = os.path.join(work, job.name + ".artifact")
    if not os.path.exists(tape) and os.path.exists(art):
        shutil.copy(art, tape)
    if os.path.exists(tape):
        first = replay_once(binary, tape, work, "first")
        if first.proc.returncode != 0:
            small = os.path.join(work, "small.tape")
            subprocess.run([binary, "shrink", tape, small, "60"], env=ENV, cwd=work, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            best = tape
            if os.path.exists(small) and replay_once(binary, small, work, "small").proc.returncode != 0:
                best = small
            runs = [replay_once(binary, best, work, "x%d" % n) for n in range(3)]
            if all(r.proc.returncode != 0 for r in runs):
                info = read_fail(runs[0].fail) or info
                with open(best, "rb") as f:
                    data = f.read()
                path = os.path.join(dest, sha([data])[:12] + ".tape")
                with open(path, "wb") as f:
                    f.write(data)
                with open(path + ".txt", "w") as f:
                    f.write("property %s\nkind %s\n%s\n%s\n" % (pid, info["kind"], info["detail"], runs[0].text()))
                print("%s: %s" % (info["kind"], info["detail"].strip()[:4000]))
                if info["kind"] in ("crash", "hang"):
                    print(runs[0].text()[-3000:])
                return path
    # not reproducible alone: the failure may depend on the cases before it
    if job.name.startswith("fuzz"):
        again = Job("again", job.cmd, work)
    else:
        again = Job("again", job.cmd, work)
    if run_jobs([again], 600) is not None:
        path = os.path.join(dest, "history.txt")
        with open(path, "w") as f:
            f.write("property %s\nmode history\ncommand %s\nkind %s\n%s\n%s\n" %
                    (pid, " ".join(job.cmd), info["kind"], info["detail"], log))
        print("history-dependent: %s: %s" % (info["kind"], info["detail"].strip()[:4000]))
        print(again.text()[-3000:])
        return path
    return None


def merge(jobs):
    cov = {"evaluations": 0, "nontrivial": 0, "assertions": 0, "examples": 0, "labels": {}, "samples": [], "rule": ""}
    distinct = set()
    for j in jobs:
        try:
            with open(j.out) as f:
                s = json.load(f)
        except (OSError, ValueError):
            continue
        for k in ("evaluations", "nontrivial", "assertions", "examples"):
            cov[k] += s[k]
        for k, v in s["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        cov["rule"] = s["rule"]
        if len(cov["samples"]) < 6:
            cov["samples"] += s["samples"][:2]
        try:
            a = array.array("Q")
            with open(j.out + ".hashes", "rb") as f:
                a.frombytes(f.read())
            distinct.update(a)
        except OSError:
            pass
    cov["samples"] = cov["samples"][:6]
    cov["distinct_nontrivial"] = len(distinct)
    return cov


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line[len("finding: "):].strip())
    return out


def check(pid):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(sha([os.environ["VERIF_SEED"]])[:8], 16)
    binary = build([pid])[pid]
    t_build = time.time() - t0
    cases, runs, max_len = PLAN[pid]
    if tier == "thorough":
        cases, runs = cases * 30, runs * 30
    wall = 2400 if tier == "thorough" else 240
    work = tempfile.mkdtemp(prefix="tgt-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 0
    violation = None
    jobs = []
    try:
        os.chmod(work, 0o755)
        phases = []
        ex = [Job("examples", [binary, "examples", "--out", "@OUT@", "--fail", "@FAIL@"], work)]
        corpus = os.path.join(work, "corpus")
        os.mkdir(corpus)
        rnd = [Job("random%d" % s, [binary, "random", "--seed", str(seed), "--shard", str(s), "--cases", str(cases),
                                    "--corpus", corpus, "--budget", str(wall - 20), "--out", "@OUT@", "--fail", "@FAIL@"], work) for s in range(PROCS)]
        fuzz = []
        for s in range(PROCS if runs else 0):
            own = os.path.join(work, "own%d" % s)
            os.mkdir(own)
            fuzz.append(Job("fuzz%d" % s, [
                binary, "fuzz", "@OUT@", "@FAIL@", own, corpus, "-runs=%d" % runs,
                "-seed=%d" % ((seed * 8 + s) % 4294967291 + 1), "-max_len=%d" % max_len, "-rss_limit_mb=0", "-timeout=0",
                "-use_value_profile=%d" % (s % 2), "-len_control=%d" % (0 if s % 4 < 2 else 50), "-reload=0", "-max_total_time=%d" % (wall - 20),
                "-print_final_stats=0", "-verbosity=0", "-detect_leaks=0",
                "-exact_artifact_path=" + os.path.join(work, "fuzz%d.artifact" % s)], work))
        for name, js in (("examples", ex), ("random", rnd), ("fuzz", fuzz)):
            if not js:
                continue
            t1 = time.time()
            bad = run_jobs(js, wall)
            jobs += js
            phases.append((name, round(time.time() - t1, 1)))
            if bad is not None:
                path = confirm(pid, binary, bad, work, seed)
                if path is None:
                    print("error: a failure in %s did not reproduce:\n%s\n%s" % (bad.name, bad.text(), read_fail(bad.fail)))
                    rc = 2
                else:
                    violation = path
                    rc = 1
                break
        cov = merge(jobs)
        cov["phases_s"] = dict(phases)
        cov["random_cases_per_shard"] = cases
        cov["fuzz_runs_per_process"] = runs
        cov["build_s"] = round(t_build, 1)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ["glibc iconv, libstdc++ and the sanitizers of clang 18 behave as documented",
                              "ThreadSanitizer sees every synchronisation of the threads" if pid in THREADED else "the library is used from one thread"],
              "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known_findings(pid):
            print("KNOWN-FINDING: " + k)
        if violation:
            print("VIOLATION property=%s replay=%s" % (pid, violation))
        elif rc == 0:
            print("OK %s: %d cases, %d distinct non-trivial, %d assertions, %.1f s" % (
                pid, cov["evaluations"], cov["distinct_nontrivial"], cov["assertions"], time.time() - t0))
    finally:
        for j in jobs:
            if j.proc and j.proc.poll() is None:
                j.proc.kill()
        shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    args = sys.argv[1:]
    try:
        if args == ["--setup"]:
            build(sorted(PLAN))
            print("built %d checks" % len(PLAN))
            return 0
        if len(args) == 3 and args[1] == "--replay":
            binary = build([args[0]])[args[0]]
            cmd = [binary, "examples"] if args[2].endswith(".txt") else [binary, "replay", os.path.abspath(args[2])]
            return 1 if subprocess.run(cmd, env=ENV).returncode else 0
        if len(args) == 1 and args[0] in PLAN:
            return check(args[0])
    except Broken as e:
        print("error: " + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
