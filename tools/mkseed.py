#!/usr/bin/env python3
"""Writes /verif/seeded/* from tools/seeds/*.txt and tries each one in a scratch copy (development aid).

  mkseed.py [--all-checks] [id ...]

A seed file:   property / needs / breaks lines, then blocks
  @@ <file>        an edit: old text, a line '----', new text
  @@ demo.cpp      the demonstration (compiled against src/*.cpp, exit 0 when all is well)
  @@ flags         extra compiler flags (optional)
For each: the patch applies, builds, passes the stable tests, its demo passes before and fails after;
then the property's check is run against the changed copy.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = """#!/bin/bash
# %s
# Run in the repository's root: exit 0 if the library behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
${CXX:-g++} -std=c++17 -w %s-I include -o "$tmp/demo" "$here/demo.cpp" src/*.cpp || exit 2
cd "$tmp" && timeout 100 ./demo
"""


def parse(path):
    d = {"edits": [], "flags": ""}
    text = open(path).read()
    head, *blocks = re.split(r"^@@ (.*)\n", text, flags=re.M)
    for l in head.strip().split("\n"):
        k, v = l.split(":", 1)
        d[k.strip()] = v.strip()
    for name, body in zip(blocks[::2], blocks[1::2]):
        if name == "demo.cpp":
            d["demo"] = body.strip("\n") + "\n"
        elif name == "flags":
            d["flags"] = body.strip() + " "
        else:
            old, new = body.split("\n----\n") if "\n----\n" in body else (body.split("----\n"))
            d["edits"].append((name, old.strip("\n"), new.strip("\n")))
    return d


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)


def one(sid, checks):
    s = parse(os.path.join(V, "tools/seeds", sid + ".txt"))
    out = os.path.join(V, "seeded", sid)
    w = os.path.join(W, sid)
    shutil.rmtree(w, ignore_errors=True)
    repo = os.path.join(w, "repo")
    os.makedirs(w)
    sh(["git", "clone", "-q", "/repo", repo], "/")
    os.makedirs(out, exist_ok=True)
    for name, old, new in s["edits"]:
        p = os.path.join(repo, name)
        t = open(p).read()
        if t.count(old) != 1:
            return sid, "edit matches %d times: %r" % (t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], repo).stdout
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    open(os.path.join(out, "demo.cpp"), "w").write(s["demo"])
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % (s["needs"], s["flags"]))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    # at least one removed line is from the base commit
    base = {f: sh(["git", "show", "56e8120:" + f], repo).stdout.decode().split("\n") for f in set(e[0] for e in s["edits"])}
    removed = [l[1:] for l in diff.decode().split("\n") if l.startswith("-") and not l.startswith("---")]
    orig = [l for l in removed if any(l in b for b in base.values()) and l.strip() not in ("", "{", "}")]
    r = []
    if not orig:
        r.append("NO ORIGINAL LINE CHANGED")
    b = sh(["bash", "-c", "cmake -S /opt/vp/cmake -B _build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=Debug >/dev/null && ninja -C _build" % repo], repo)
    if b.returncode:
        return sid, "does not build\n" + b.stdout.decode()[-2000:]
    t = sh(["bash", "-c", "mkdir _build/run && cd _build/run && ln -s ../../test/* . && ln -s ../tinygettext_test ../po_parser_test . && ./tinygettext_test directory po/ umlaut Deutsch && ./tinygettext_test directory po/ umlaut de && ./tinygettext_test directory po/ umlaut deutsch && ./tinygettext_test translate po/fr.po invalid"], repo)
    if t.returncode:
        r.append("TESTS FAIL")
    d = sh(["bash", os.path.join(out, "demo.sh")], repo)
    if d.returncode in (0, 2):
        r.append("DEMO with patch: %d %s" % (d.returncode, d.stdout.decode(errors="replace")[-600:]))
    sh(["git", "stash", "-q"], repo)
    d = sh(["bash", os.path.join(out, "demo.sh")], repo)
    if d.returncode != 0:
        r.append("DEMO without patch: %d %s" % (d.returncode, d.stdout.decode(errors="replace")[-600:]))
    sh(["git", "stash", "pop", "-q"], repo)
    for c in (checks or [s["property"]]):
        if c == "none":
            continue
        e = dict(os.environ, TINYGETTEXT_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=w)
        q = sh([sys.executable, os.path.join(V, "run.py"), c], V, env=e)
        o = q.stdout.decode(errors="replace")
        m = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        m2 = [l for l in o.split("\n") if "label" in l or "fail" in l][:2]
        r.append("%s: %d %s" % (c, q.returncode, "caught" if q.returncode == 1 and m else "MISSED" if q.returncode == 0 else o[-500:]) + (" " + o.split("\n")[0][:150] if m else ""))
    shutil.rmtree(w, ignore_errors=True)
    return sid, "; ".join(r)


def main():
    a = sys.argv[1:]
    checks = None
    if a and a[0].startswith("--checks="):
        checks = a.pop(0)[9:].split(",")
    ids = a or sorted(f[:-4] for f in os.listdir(os.path.join(V, "tools/seeds")))
    with ThreadPoolExecutor(2) as ex:
        for sid, r in ex.map(lambda i: one(i, checks), ids):
            print(sid, "|", r, flush=True)


main()
