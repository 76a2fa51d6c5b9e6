"""Builds the library and the conformance driver from /repo's working tree, and the TLA+ module overrides.

Everything goes to /verif/.build, keyed by the content it was built from."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZCM_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
CONFIGS = {
    "debug": ["-O0"],
    "release": ["-O2", "-DNDEBUG", "-DZCM_RELEASE_BUILD"],
    "cover": ["-O0", "-DNDEBUG", "-DZCM_RELEASE_BUILD"],
}
COVER = ["-fsanitize-coverage=trace-pc,trace-cmp"]       # on the library and the operations, not on the driver
WARN = ["-w"]


class BuildError(Exception):
    """what could not be compiled or linked: kind 'library' or 'client'"""

    def __init__(self, kind, what, log):
        Exception.__init__(self, "%s: %s" % (kind, what))
        self.kind, self.what, self.log = kind, what, log


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, subs, files in os.walk(d):
            subs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def library_sources():
    """the sources of the zcm target"""
    try:
        text = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"add_library\(\s*zcm\s+STATIC(.*?)\)", text, re.S)
        srcs = [os.path.join(REPO, s) for s in m.group(1).split() if s.endswith((".cpp", ".cc", ".cxx"))]
        if srcs and all(os.path.exists(s) for s in srcs):
            return srcs
    except (OSError, AttributeError):
        pass
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def _install(tmp, d):
    try:
        os.rename(tmp, d)
    except OSError:                                      # another check was first
        if not os.path.isdir(d):
            raise
        shutil.rmtree(tmp)


def _compile(job):
    kind, cmd, obj, name = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return (kind, name, r.stderr)
    os.replace(tmp, obj)
    return None


def build(config, units, extra_flags=(), cxx="g++", link=(), main="drv", plain=()):
    """objects of the library and of the harness units (plain: never instrumented), linked; returns the path of the executable"""
    os.makedirs(OUT, exist_ok=True)
    base = CONFIGS.get(config, []) + list(extra_flags) + WARN
    cover = COVER if config == "cover" else []
    tree = tree_digest(os.path.join(REPO, "include"), os.path.join(REPO, "src"))
    hdr = open(os.path.join(VERIF, "harness", "drv.hpp")).read()
    jobs, objs = [], []

    def add(kind, src, std, incs, extra=()):
        data = open(src, "rb").read()
        flags = base + list(extra)
        obj = os.path.join(OUT, digest(kind, src, data, tree, hdr if kind == "client" else "", " ".join(flags), cxx, std) + ".o")
        jobs.append((kind, [cxx, "-std=" + std] + flags + incs + ["-c", src], obj, src))
        objs.append(obj)

    for s in library_sources():
        add("library", s, "c++14", ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")], cover)
    incs = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness")]
    for u in ([main] if main else []) + list(units) + list(plain):
        p = u if os.path.isabs(u) else os.path.join(VERIF, "harness", u + ".cpp")
        add("client", p, "c++17", incs, () if u == main or u in plain else cover)
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[3]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        bad = [b for b in ex.map(_compile, order) if b]
    for kind in ("library", "client"):
        for k, name, log in bad:
            if k == kind:
                raise BuildError(kind, name, log)
    exe = os.path.join(OUT, "drv_" + digest(*objs, *link))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([cxx, "-o", tmp] + objs + base + list(link) + ["-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("client", "link", r.stderr)
        os.replace(tmp, exe)
    return exe


def swizzle_units():
    gen = os.path.join(VERIF, "harness", "gen_swz.py")
    d = os.path.join(OUT, "swz_" + digest(open(gen).read()))
    if not os.path.isdir(d):
        tmp = d + ".tmp%d" % os.getpid()
        subprocess.run([sys.executable, gen, tmp], check=True)
        _install(tmp, d)
    return sorted(glob.glob(d + "/*.cpp"))


def spec_dir():
    """the specification together with its compiled overrides"""
    src = os.path.join(VERIF, "spec")
    d = os.path.join(OUT, "tla_" + tree_digest(src)[:24])
    if not os.path.isdir(d):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.copytree(src, tmp)
        java = glob.glob(tmp + "/*.java")
        r = subprocess.run(["javac", "-nowarn", "-cp", CP] + java, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("javac: " + r.stderr)
        _install(tmp, d)
    return d
