"""P28: the benchmark generator.  Runs it through histories the specification enumerates, reads the trees it leaves,
compiles them against the library, and lets BenchTrace decide."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess

import build
import check
import gen
import tlc

SHIM = r"""
#include <time.h>
#include <stdlib.h>
time_t time(time_t *t) { const char *s = getenv("ZCM_TIME"); time_t v = s ? atol(s) : 1; if (t) *t = v; return v; }
"""
NOBODY = 65534
COMPILER = """#!/bin/sh
# stands in for the compiler when a build script is run: writes down what it was asked to compile
{ echo COMMAND; for a in "$@"; do printf '%s\\n' "$a"; done; } >> "$RECORD"
"""
# files of the user's in the directories the generator is given
OTHERS = {"notes.txt": "notes", "mine.h": "int mine();", "other.cpp": "int mine() { return 1; }", "run.sh": "echo mine", "sub/file0.cpp": "keep", "sub/main.cpp": "keep"}


def generator(work):
    """the generator's executable and the clock it is run with"""
    srcs = sorted(glob.glob(os.path.join(build.REPO, "tools", "benchgen", "*.cpp")))
    exe, shim = os.path.join(work, "benchgen"), os.path.join(work, "clock.so")
    r = subprocess.run(["g++", "-std=c++17", "-w"] + srcs + ["-o", exe, "-lfmt"], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError("library", "tools/benchgen", r.stderr)
    with open(os.path.join(work, "clock.c"), "w") as f:
        f.write(SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", os.path.join(work, "clock.c"), "-o", shim], check=True)
    os.chmod(exe, 0o755)
    os.chmod(shim, 0o755)
    return exe, shim


def snapshot(root):
    out = {}
    for d, subs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel + "/"] = "dir"
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.join(rel, f)] = fh.read()
    return out


def tokens(text):
    text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)
    text = re.sub(r"\\\n", " ", text)
    return re.sub(r"^\s*#[^\n]*", "", text, flags=re.M)


def functions(text):
    """top-level function declarations, definitions, and for every definition its body"""
    text = tokens(text)
    decl, defs, depth, start, head = [], [], 0, 0, ""
    for m in re.finditer(r"[{};]", text):
        c = m.group(0)
        if depth == 0:
            n = re.search(r"(\w+)\s*\(\s*(?:void)?\s*\)\s*(?:noexcept)?\s*$", text[start:m.start()])
            if c == ";":
                if n:
                    decl.append(n.group(1))
                start = m.end()
            elif c == "{":
                head, begin, depth = (n.group(1) if n else ""), m.end(), 1
        elif c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                if head:
                    defs.append((head, text[begin:m.start()]))
                start = m.end()
    return decl, defs


def read_tree(d, run):
    """the files of the program in d; run(script) gives the commands a build script would execute"""
    files = []
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        if not os.path.isfile(p) or name in OTHERS:
            continue
        text = open(p, errors="replace").read()
        inc = re.findall(r'^\s*#\s*include\s*"([^"]+)"', text, re.M)
        if name.endswith((".h", ".hpp")):
            decl, defs = functions(text)
            files.append({"kind": "header", "name": name, "declares": decl, "defines": [f for f, _ in defs]})
        elif name.endswith(".cpp"):
            decl, defs = functions(text)
            mains = [b for f, b in defs if f == "main"]
            if mains:
                files.append({"kind": "main", "name": name, "includes": inc, "calls": re.findall(r"\b(\w+)\s*\(\s*\)\s*;", mains[0])})
            else:
                files.append({"kind": "source", "name": name, "includes": inc, "defines": [f for f, _ in defs]})
        elif name.endswith(".sh"):
            cmds = run(name)
            flags, skip = [], False
            for w in [w for c in cmds for w in c]:
                if skip or w in ("-o", "-c") or w.endswith((".cpp", ".cc")) or w.startswith(("-l", "-L")):
                    skip = w in ("-o", "-L", "-l") and not skip
                    continue
                flags.append(w)
            files.append({"kind": "script", "name": name, "sources": [os.path.normpath(w) for c in cmds for w in c if w.endswith((".cpp", ".cc"))], "flags": flags})
    return files


def compile_tree(d, files, objs, link):
    """compiles every source of the program as its script does; returns the sources that fail and whether the program links"""
    srcs = [f["name"] for f in files if f["kind"] in ("source", "main")]
    flags = next((f["flags"] for f in files if f["kind"] == "script" and f["name"].startswith("zcm")), [])
    out = os.path.join(os.path.dirname(d), "obj")
    os.makedirs(out, exist_ok=True)

    def one(s):
        o = os.path.join(out, s + ".o")
        r = subprocess.run(["g++"] + flags + ["-w", s] + (["-c", "-o", o] if link else ["-fsyntax-only"]), cwd=d, capture_output=True, text=True)
        return (s, r.stderr[:400], o) if r.returncode else (None, "", o)

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, srcs))
    bad = [s for s, _, _ in res if s]
    log = next((l for s, l, _ in res if s), "")
    links = True
    if link and not bad:
        exe = os.path.join(out, "program")
        r = subprocess.run(["g++"] + [o for _, _, o in res] + objs + ["-o", exe], capture_output=True, text=True)
        links = r.returncode == 0
        log = r.stderr[:600]
        if links:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
            links = r.returncode == 0
            log = "the program ended with %d" % r.returncode
    shutil.rmtree(out, ignore_errors=True)
    return bad, links, log


def library_objects():
    """the library's objects, from the driver's build cache"""
    import build as b
    flags, tree = b.CONFIGS["debug"] + b.WARN, b.tree_digest(os.path.join(b.REPO, "include"), os.path.join(b.REPO, "src"))
    jobs = []
    os.makedirs(b.OUT, exist_ok=True)
    for s in b.library_sources():
        obj = os.path.join(b.OUT, b.digest("library", s, open(s, "rb").read(), tree, "", " ".join(flags), "g++", "c++14") + ".o")
        jobs.append(("library", ["g++", "-std=c++14"] + flags + ["-I", os.path.join(b.REPO, "include"), "-I", os.path.join(b.REPO, "src"), "-c", s], obj, s))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for bad in ex.map(b._compile, jobs):
            if bad:
                raise b.BuildError(*bad)
    return [j[2] for j in jobs]


class World:
    """a scratch place with the directories of a history; the generator runs in it without privileges"""

    def __init__(self, work, tag):
        self.root = os.path.join(work, "world_" + tag)
        os.makedirs(self.root)
        for d in ("plain", "with space", "littered", "cwd"):
            os.mkdir(os.path.join(self.root, d))
            if d != "cwd":
                os.mkdir(os.path.join(self.root, d, "sub"))
                for n, t in OTHERS.items():
                    with open(os.path.join(self.root, d, n), "w") as f:
                        f.write(t)
        self.bin = os.path.join(self.root, "bin")
        os.mkdir(self.bin)
        for n in ("g++", "c++", "gcc", "cc", "clang++", "clang"):
            with open(os.path.join(self.bin, n), "w") as f:
                f.write(COMPILER)
            os.chmod(os.path.join(self.bin, n), 0o755)
        lit = os.path.join(self.root, "littered")
        for n, t in (("file0.cpp", "int broken(\n" * 3000), ("file7.h", "void func700();\n" * 500), ("main.cpp", "int main( {\n" * 20000), ("zcm-build.sh", "exit 1\n" * 4000)):
            with open(os.path.join(lit, n), "w") as f:
                f.write(t)
        for n in ("file", "main.cpp", "file0.cpp", "file0.h", "zcm-build.sh", "cwd/file1.cpp", "cwd/main.cpp"):
            with open(os.path.join(self.root, n), "w") as f:
                f.write("keep " + n)
        if os.geteuid() == 0:
            for d, subs, files in os.walk(self.root):
                for n in [d] + [os.path.join(d, f) for f in files]:
                    os.chown(n, NOBODY, NOBODY)

    def script(self, d, name):
        """the compiler commands a build script executes"""
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.geteuid() == 0 else {}
        rec = os.path.join(self.root, "commands")
        open(rec, "w").close()
        os.chmod(rec, 0o666)
        r = subprocess.run(["/bin/sh", name], cwd=os.path.join(self.root, d), capture_output=True, text=True, timeout=60,
                           env={"PATH": self.bin + ":/usr/bin:/bin", "RECORD": rec, "ZCM_INCLUDE_PATH": os.path.join(build.REPO, "include"),
                                "ZCM_LIBRARY_PATH": "/nowhere", "ZCM_LIBRARY_NAME": "zcm"}, **kw)
        out = [c.split("\n")[:-1] for c in open(rec).read().split("COMMAND\n")[1:]]
        os.remove(rec)
        return out if r.returncode == 0 else []

    def run(self, exe, shim, arg, seed):
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.geteuid() == 0 else {}
        argv = [exe] + ([] if arg is None else [arg])
        return subprocess.run(argv, cwd=os.path.join(self.root, "cwd"), capture_output=True, text=True, timeout=120,
                              env={"LD_PRELOAD": shim, "ZCM_TIME": str(seed), "PATH": "/usr/bin:/bin"}, **kw)


def spellings(root, d, g):
    p = os.path.join(root, d)
    return g.r.choice((p, p + "/", "../" + d, os.path.join(root, "cwd", "..", d), "./../" + d + "/."))


def play(history, exe, shim, work, tag, g, objs, link, cover):
    """one history; returns a record for every directory that was given"""
    w = World(work, tag)
    recs, given = [], {}
    for step, d in enumerate(history):
        before = snapshot(w.root)
        arg = None if d == "none" else spellings(w.root, d, g) if d != "file" else os.path.join(w.root, "file")
        seed = g.r.randrange(1, 2**31)
        r = w.run(exe, shim, arg, seed)
        after = snapshot(w.root)
        inside = "./" if d in ("none", "file") else d + "/"
        own = lambda p: d not in ("none", "file") and p.startswith(d + "/") and not p.startswith(d + "/sub/") and p[len(d) + 1:] not in OTHERS
        outside = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p) and not own(p))
        if r.returncode < 0:
            outside.append("the generator ended with %d" % r.returncode)
        if d in ("none", "file"):
            if outside:
                recs.append({"dir": d, "history": history, "seed": seed, "files": [], "outside": outside, "uncompiled": [], "links": False, "log": ""})
            continue
        if r.returncode:
            outside.append("the generator ended with %d: %s" % (r.returncode, r.stderr[-200:]))
        given[d] = seed
        rec = {"dir": d, "history": history[:step + 1], "seed": seed, "files": read_tree(os.path.join(w.root, d), lambda n: w.script(d, n)), "outside": outside}
        rec["uncompiled"], rec["links"], rec["log"] = ([], True, "")
        recs.append(rec)
    # what the last run into each directory left, compiled
    for d in given:
        rec = [r for r in recs if r["dir"] == d][-1]
        rec["files"] = read_tree(os.path.join(w.root, d), lambda n: w.script(d, n))
        rec["uncompiled"], rec["links"], rec["log"] = compile_tree(os.path.join(w.root, d), rec["files"], objs, link) if link is not None else ([], True, "")
    shutil.rmtree(w.root, ignore_errors=True)
    cover.calls += len(history)
    return recs


def bench_check(pid, tier, seed, cover, work, deadline):
    exe, shim = generator(work)
    objs = library_objects()
    os.chmod(work, 0o755)
    r = tlc.run("BenchHistory", "BenchHistory.cfg", workers=1)
    if not r.ok:
        raise RuntimeError("BenchHistory: " + r.trace[:2000])
    cover.states += r.distinct
    cover.transitions += r.transitions
    cover.models.append({"model": "BenchHistory.cfg", "states": r.distinct, "transitions": r.transitions})
    hs = []
    for chunk in re.split(r'<<\s*"RUNS"\s*,', r.out)[1:]:
        hs.append(re.findall(r'"([^"]+)"', chunk[:chunk.index(">>")]))
    if len(hs) < 100:
        raise RuntimeError("the specification printed %d histories" % len(hs))
    g = gen.Gen("%s/%s" % (pid, seed))
    g.r.shuffle(hs)
    must = [["plain", "with space", "plain"], ["littered", "none", "file"]]
    recs, n = [], 0
    while True:
        todo = (must if n == 0 else []) + hs[n:n + (14 if tier == "quick" else 25)]
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            jobs = []
            for k, h in enumerate(todo):
                link = (True if n == 0 and k == 0 else False if n == 0 and k < 3 or tier == "thorough" and k < 4 else None)
                jobs.append(ex.submit(play, h, exe, shim, work, "%d_%d" % (n, k), gen.Gen("%s/%s/%d/%d" % (pid, seed, n, k)), objs, link, cover))
            batch = [x for j in jobs for x in j.result()]
        slim = [json.dumps({k: r[k] for k in ("files", "outside", "uncompiled", "links")}) for r in batch]
        cover.sessions += len(batch)
        bad = check.judge(slim, work, cover, "BenchTrace", "BenchTrace.cfg")
        if bad is not None:
            r = batch[bad[0]]
            tail = bad[1].strip().splitlines()[-30:]
            raise check.Violation("the tree the generator left is not a complete program, or something outside changed",
                                  {"recorded": ["runs %s, clock %d, into '%s'" % (r["history"], r["seed"], r["dir"]), "changed outside: %s" % r["outside"][:6],
                                                "does not compile: %s" % r["uncompiled"][:6], "links and runs: %s %s" % (r["links"], r["log"])], "specification": tail[:30]})
        recs += batch
        n += len(todo)
        if not cover.samples:
            f = [x for x in batch if x["files"]][0]
            cover.samples = [[f["history"], f["seed"], f["dir"], {k: (v if not isinstance(v, list) else v[:3]) for k, v in f["files"][0].items()}]]
        if tier == "quick" or check.time.time() > deadline or n >= len(hs):
            break
    cover.ops = {"benchgen"}
