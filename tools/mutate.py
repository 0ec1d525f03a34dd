#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, no registered check uses it).

  mutate.py OUT.jsonl [file substring]

Makes small changes to /repo's sources in scratch copies, one at a time, and records which
checks notice (examples, random cases of one shard, a short fuzzing run). Survivors are
printed; they are either equivalent to the original or a gap.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run

ORDER = {
    "po_parser": "C01 C03 C13 C07 C02 C19 C16 C25 C22", "dictionary.": "C05 C06 C16 C19 C12", "dictionary_manager": "C12 C11 C14 C15 C13 C06 C16 C20",
    "iconv": "C08 C07 C20", "language": "C09 C10", "plural_forms": "C04 C05 C01 C17", "log": "C16", "unix_file_system": "C18",
}
FILES = ["src/" + f for f in ("po_parser.cpp", "dictionary.cpp", "dictionary_manager.cpp", "iconv.cpp", "language.cpp", "plural_forms.cpp", "log.cpp", "unix_file_system.cpp")] + \
        ["include/tinygettext/" + f for f in ("dictionary.hpp", "language.hpp", "plural_forms.hpp", "log_stream.hpp", "iconv.hpp")]
SWAPS = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), ("++", "--")]

PAIRS = [("msgid", "msgctxt"), ("msgid", "msgid_plural"), ("msgid_plural", "msgctxt"), ("lhs", "rhs"), ("begin", "end"), ("front", "back"), ("rbegin", "begin"), ("rend", "end"),
         ("entries", "ctxt_entries"), ("country", "modifier"), ("country", "language"), ("to_charset", "from_charset"), ("from_charset_", "to_charset_"), ("get_country", "get_modifier"), ("get_country", "get_language"),
         ("fuzzy", "use_fuzzy"), ("eof", "running"), ("isspace", "isdigit"), ("log_info", "log_error"), ("log_warning", "log_error"), ("push_front", "push_back"),
         ("from_env", "from_name"), ("has_suffix", "has_prefix"), ("ln", "dt"), ("dt", "at"), ("ln", "at"), ("msgstr", "msgid"), ("inbuf", "outbuf"), ("inbytesleft", "outbytesleft"),
         ("translate", "translate_plural"), ("best_score", "score"), ("best_filename", "filename"), ("break", "continue"), ("find", "rfind"), ("skip", "i"), ("n", "1")]


def strip(line):
    return re.sub(r"//.*", "", line)


def mutants(path, text):
    lines = text.split("\n")
    comment = False
    for n, line in enumerate(lines):
        s = line.strip()
        if "/*" in s and "*/" not in s and not s.startswith("//"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if s.startswith("{ \"") and n % 12 == 0:
            yield n, "delete language", ""
            yield n, "wrong country", re.sub(r'"([A-Z]{2})"', '"ZZ"', line, count=1)
        if "language_aliases[\"" in s and n % 6 == 0:
            yield n, "delete alias", ""
        if not s or s.startswith(("//", "#include", "#ifndef", "#endif", "#  include", "# include", "#else", "#ifdef", "/*", "{ \"", "assert(", "std::cout", "log_")) or "language_aliases[\"" in s:
            continue
        code = strip(line)
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a) if not a.isalpha() else r"\b%s\b" % a, code):
                i = m.start()
                if a in ("==", "!=", "<=", ">=") or a.isalpha() or a in ("&&", "||", "++"):
                    yield n, a + "->" + b, line[:i] + b + line[i + len(a):]
        for m in re.finditer(r" < | > ", code):
            if "template" in code or "#" in code:
                continue
            op = m.group().strip()
            yield n, op + "->" + op + "=", line[:m.start()] + " " + op + "= " + line[m.end():]
        for m in re.finditer(r"\b\d+\b", code):
            v = int(m.group())
            for w in ({v + 1, v - 1} if v else {1}):
                yield n, "%d->%d" % (v, w), line[:m.start()] + str(w) + line[m.end():]
        for m in re.finditer(r"!(?=[\w(*])", code):
            yield n, "drop !", line[:m.start()] + line[m.end():]
        for m in re.finditer(r"\bif ?\(", code):
            yield n, "if false", line[:m.end()] + "false && " + line[m.end():]
            yield n, "if true", line[:m.end()] + "true || " + line[m.end():]
        for m in re.finditer(r"'([^'\\])'", code):
            yield n, "char", line[:m.start()] + "'\\x01'" + line[m.end():]
        if s.endswith(";") and not re.match(r"(return|typedef|static|std::\w+(<.*>)?[ &]+\w+|unsigned int|size_t|bool|int|char|const|using|friend|virtual|class|struct|delete|~?\w+\(\);$|default:)", s):
            yield n, "delete statement", re.match(r"\s*", line).group() + ";"
        simple = re.match(r"[^{}]*;$", s) and not re.match(r"(return|typedef|static|using|friend|virtual|class|struct|break|case|default|for|if|else|goto)\b", s)
        if simple:
            yield n, "duplicate statement", line + " " + s
            nxt = lines[n + 1].strip() if n + 1 < len(lines) else ""
            if re.match(r"[^{}]*;$", nxt) and not re.match(r"(return|typedef|static|using|break|case|default|for|if|else|goto)\b", nxt):
                yield n, "delay statement", re.match(r"\s*", line).group() + nxt + " " + s  # and nxt again
        names = sorted(set(re.findall(r"\b[a-z_]\w*\b", code)))
        for x, y in PAIRS:
            for u, v in ((x, y), (y, x)):
                for m in re.finditer(r"\b%s\b" % re.escape(u), code):
                    yield n, u + "->" + v, line[:m.start()] + v + line[m.end():]
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
            if m.group(1).isprintable() and "warning" not in s and "error" not in s:
                yield n, "shorter literal", line[:m.start()] + '"' + m.group(1)[:-1].rstrip("\\") + '"' + line[m.end():]
                yield n, "empty literal", line[:m.start()] + '""' + line[m.end():]
        for u, v in (("\\+ ?1\\b", "+ 2"), ("\\bstatic_cast<unsigned int>", "static_cast<unsigned short>"), ("\\bsize_t\\b", "unsigned char"), ("std::string::size_type", "unsigned short"), ("\\bunsigned int\\b", "unsigned char"), ("\\bint\\b", "short")):
            for m in re.finditer(u, code):
                yield n, "narrow", line[:m.start()] + v + line[m.end():]
        if re.search(r"\bif ?\(", code):
            yield n, "once", re.sub(r"\bif ?\(", "if (ONCE_ && ", line, count=1).replace("ONCE_", "[]{ static int k = 0; return ++k != 7; }()")
        if re.match(r"return .*;", s) and s not in ("return false;", "return true;"):
            pass


def work(args):
    k, path, line, op, new, base = args
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        repo = os.path.join(d, "repo")
        os.mkdir(repo)
        for s in ("src", "include"):
            shutil.copytree(os.path.join("/repo", s), os.path.join(repo, s))
        p = os.path.join(repo, path)
        lines = open(p).read().split("\n")
        old = lines[line]
        lines[line] = new
        open(p, "w").write("\n".join(lines))
        env = dict(os.environ, TINYGETTEXT_REPO=repo)
        r = {"file": path, "line": line + 1, "op": op, "old": old.strip(), "new": new.strip()}
        header = path.startswith("include")
        lib = []
        for f in sorted(os.listdir(os.path.join(repo, "src"))):
            if not f.endswith(".cpp"):
                continue
            o = base[f]
            if header or path == "src/" + f:
                o = os.path.join(d, f + ".o")
                flags = [x.replace("/repo/include", repo + "/include") for x in run.LIB_FLAGS]
                c = subprocess.run([run.CXX] + flags + ["-c", os.path.join(repo, "src", f), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if c.returncode:
                    r["result"] = "does not compile"
                    return r
            lib.append(o)
        ids = next(v for kk, v in sorted(ORDER.items(), key=lambda x: -len(x[0])) if kk in os.path.basename(path)).split()
        if not os.environ.get("MUTATE_FEW"):
            ids += [i for i in sorted(run.PLAN) if i not in ids and i not in ("C21", "C23", "C24")]
        w = os.path.join(d, "w")
        os.mkdir(w)
        for i in ids:
            if header:
                o = os.path.join(d, i + ".o")
                flags = [x.replace("/repo/include", repo + "/include") for x in run.HARNESS_FLAGS]
                c = subprocess.run([run.CXX] + flags + ["-c", os.path.join(run.VERIF, "harness/props", i + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if c.returncode:
                    r["result"] = "does not compile"
                    return r
                har = []
                for h in ("pbt", "model", "charset", "manager"):
                    ho = os.path.join(d, h + ".o")
                    if not os.path.exists(ho):
                        subprocess.run([run.CXX] + flags + ["-c", os.path.join(run.VERIF, "harness", h + ".cpp"), "-o", ho], check=True)
                    har.append(ho)
            else:
                o, har = base[i], base["har"]
            b = os.path.join(d, "bin")
            c = subprocess.run([run.CXX] + run.SAN + ["-o", b, o] + har + lib + [run.FUZZER_LIB, "-lstdc++", "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode:
                r["result"] = "does not link"
                return r
            cases, fz, ml = run.PLAN[i]
            for cmd in ([b, "examples"], [b, "random", "--seed", "1", "--cases", str(cases), "--budget", os.environ.get("MUTATE_BUDGET", "100")]):
                try:
                    q = subprocess.run(cmd, cwd=w, env=run.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    rc, out = q.returncode, q.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 99, b"timeout"
                if rc:
                    r["result"] = "killed"
                    r["by"] = i
                    r["mode"] = cmd[1]
                    r["how"] = out.decode(errors="replace").strip().split("\n")[0][:200]
                    return r
        r["result"] = "SURVIVED"
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    os.makedirs("/tmp/mut", exist_ok=True)
    run.build(sorted(run.PLAN))
    base = {}
    hdr = run.content(sorted(run.glob.glob("/repo/include/**/*.hpp", recursive=True) + run.glob.glob("/repo/src/*.hpp")))
    hh = run.content(sorted(run.glob.glob(run.VERIF + "/harness/*.hpp")))

    def obj(src, flags, more):
        o = os.path.join(run.BUILD, os.path.basename(src)[:-4] + "-" + run.sha([src] + flags + more + run.content([src])) + ".o")
        k = "/tmp/mut/" + os.path.basename(o)
        shutil.copy(o, k)
        return k
    for s in sorted(run.glob.glob("/repo/src/*.cpp")):
        base[os.path.basename(s)] = obj(s, run.LIB_FLAGS, hdr)
    base["har"] = [obj(s, run.HARNESS_FLAGS, hdr + hh) for s in sorted(run.glob.glob(run.VERIF + "/harness/*.cpp"))]
    for i in [x for x in run.PLAN if x not in ("C21", "C23", "C24")]:
        base[i] = obj(os.path.join(run.VERIF, "harness/props", i + ".cpp"), run.HARNESS_FLAGS, hdr + hh)
    jobs = []
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["new"]))
    for f in FILES:
        if sub and sub not in f:
            continue
        text = open("/repo/" + f).read()
        seen = set()
        for n, op, new in mutants(f, text):
            if (n, new) in seen or (f, n + 1, new.strip()) in done:
                continue
            seen.add((n, new))
            jobs.append((len(jobs), f, n, op, new, base))
    if os.environ.get("MUTATE_FEW"):
        random.Random(int(os.environ["MUTATE_FEW"])).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUTATE_JOBS", "8"))) as ex, open(out, "a") as o:
        for r in ex.map(work, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["result"] == "SURVIVED":
                print("%s:%d %s | %s | %s" % (r["file"], r["line"], r["op"], r["old"], r["new"]), flush=True)


if __name__ == "__main__":
    main()
