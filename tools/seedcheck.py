#!/usr/bin/env python3
"""Runs every planted bug against its property's check, in one process each (development aid).

  seedcheck.py [ids ...]

Like mutate.py: scratch copies, eight at a time; examples, then random cases of seed 1.
Prints the planted bugs that the check does not notice in this way.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run

TOP = "/tmp/seedcheck"


def work(d):
    i = os.path.basename(d)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix=i + "-", dir=TOP)
    try:
        repo = os.path.join(w, "repo")
        os.mkdir(repo)
        for s in ("src", "include"):
            shutil.copytree(os.path.join("/repo", s), os.path.join(repo, s))
        if subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + repo, os.path.join(d, "patch.diff")], cwd="/").returncode:
            return i, prop, "does not apply"
        if prop in ("C21", "C23"):  # other build flags
            return i, prop, "FULL"
        objs = []
        inc = lambda f: [x.replace("/repo/include", repo + "/include") for x in f]
        patch = open(os.path.join(d, "patch.diff"), errors="replace").read()
        header = "+++ b/include" in patch
        for f in sorted(glob.glob(repo + "/src/*.cpp")):
            k = os.path.join(TOP, "base-" + os.path.basename(f) + ".o")
            if not header and "+++ b/src/" + os.path.basename(f) not in patch and ".hpp" not in patch and os.path.exists(k):
                objs.append(k)
                continue
            o = os.path.join(w, os.path.basename(f) + ".o")
            if subprocess.run([run.CXX] + inc(run.LIB_FLAGS) + ["-c", f, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return i, prop, "does not compile"
            objs.append(o)
        for f in [run.VERIF + "/harness/%s.cpp" % h for h in ("pbt", "model", "charset", "manager")] + [run.VERIF + "/harness/props/%s.cpp" % prop]:
            k = os.path.join(TOP, "base-" + os.path.basename(f) + ".o")
            if not header and os.path.exists(k):
                objs.append(k)
                continue
            o = os.path.join(w, os.path.basename(f) + ".h.o")
            subprocess.run([run.CXX] + inc(run.HARNESS_FLAGS) + ["-c", f, "-o", o], check=True)
            objs.append(o)
        b = os.path.join(w, "bin")
        subprocess.run([run.CXX] + run.SAN + ["-o", b] + objs + [run.FUZZER_LIB, "-lstdc++", "-lm", "-lpthread"], check=True)
        cwd = os.path.join(w, "w")
        os.mkdir(cwd)
        cases = run.PLAN[prop][0]
        for cmd in ([b, "examples"], [b, "random", "--seed", "1", "--cases", str(cases), "--budget", "100"]):
            try:
                q = subprocess.run(cmd, cwd=cwd, env=run.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                return i, prop, "caught by " + cmd[1]
        return i, prop, "FULL"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def full(i, prop):
    w = tempfile.mkdtemp(prefix=i + "-", dir=TOP)
    try:
        for s in ("src", "include"):
            shutil.copytree(os.path.join("/repo", s), os.path.join(w, s))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, run.VERIF + "/seeded/%s/patch.diff" % i], cwd="/", check=True)
        rc = subprocess.run([sys.executable, "run.py", prop], cwd=run.VERIF, env=dict(os.environ, TINYGETTEXT_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        return "caught by the full check" if rc == 1 else "MISSED"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    os.makedirs(TOP, exist_ok=True)
    ids = sys.argv[1:]
    dirs = [d for d in sorted(glob.glob(run.VERIF + "/seeded/*")) if not ids or os.path.basename(d) in ids]
    def base(f):
        subprocess.run([run.CXX] + (run.LIB_FLAGS if f.startswith("/repo") else run.HARNESS_FLAGS) + ["-c", f, "-o", os.path.join(TOP, "base-" + os.path.basename(f) + ".o")], check=True)
    props = sorted({json.load(open(os.path.join(d, "meta.json")))["property"] for d in dirs} - {"C21", "C23"})
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(base, glob.glob("/repo/src/*.cpp") + [run.VERIF + "/harness/%s.cpp" % h for h in ("pbt", "model", "charset", "manager")] + [run.VERIF + "/harness/props/%s.cpp" % p for p in props]))
    n = {}
    later = []
    with ThreadPoolExecutor(8) as ex:
        for i, p, r in ex.map(work, dirs):
            later.append((i, p)) if r == "FULL" else None
            n[r] = n.get(r, 0) + 1
            if not r.startswith("caught") and r != "FULL":
                print(i, p, r, flush=True)
    for i, p in later:
        r = full(i, p)
        n[r] = n.get(r, 0) + 1
        if not r.startswith("caught"):
            print(i, p, r, flush=True)
    print(n)
    shutil.rmtree(TOP, ignore_errors=True)


if __name__ == "__main__":
    main()
