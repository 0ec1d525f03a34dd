#!/usr/bin/env python3
"""Runs every planted bug's demonstration without and with the bug (development aid)."""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def work(d):
    i = os.path.basename(d)
    w = tempfile.mkdtemp(prefix="demo-" + i + "-", dir="/tmp")
    try:
        for s in ("src", "include"):
            shutil.copytree(os.path.join("/repo", s), os.path.join(w, s))
        demo = os.path.join(d, "demo.sh")
        r = []
        a = subprocess.run(["bash", demo], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if a:
            r.append("fails without the bug (%d)" % a)
        if subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, os.path.join(d, "patch.diff")], cwd="/", stderr=subprocess.DEVNULL).returncode:
            return i, r + ["does not apply"]
        b = subprocess.run(["bash", demo], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if b in (0, 2):
            r.append("exit %d with the bug" % b)
        return i, r
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:]
with ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(work, [d for d in sorted(glob.glob(V + "/seeded/*")) if not ids or os.path.basename(d) in ids]):
        if r:
            print(i, "; ".join(r), flush=True)
