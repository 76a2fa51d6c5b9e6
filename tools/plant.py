#!/usr/bin/env python3
"""Planted bugs: confirm them (build, 188 tests, demonstration with and without) and run the checks against them, each in a
private copy of /repo mounted over /repo in a namespace of its own.
  plant.py confirm ID...     plant.py check ID... [--prop Pnn] [--tier quick]     plant.py all ID..."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def ns(copy, script):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, script)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)


def copy(ident, patch):
    d = tempfile.mkdtemp(prefix="plant.%s." % ident)
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    if patch:
        subprocess.run(["git", "-C", d, "apply", patch], check=True)
    return d


def confirm(ident):
    s = os.path.join(V, "seeded", ident)
    msg = []
    for patched in (False, True):
        d = copy(ident, os.path.join(s, "patch.diff") if patched else None)
        try:
            lay = tempfile.mkdtemp(prefix="demo.")
            for f in os.listdir(s):
                if not f.endswith((".diff", ".patch", "meta.json")):
                    shutil.copy(os.path.join(s, f), lay)
            if patched:
                r = ns(d, "bash /opt/vp/build.sh >%s/build.log 2>&1; echo BUILD $?; bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1" % (lay, lay))
                if "BUILD 0" not in r.stdout:
                    return ident, "DOES NOT BUILD " + open(lay + "/build.log").read()[-1500:]
                out = json.load(open(lay + "/out.json"))
                want = BASE.get("passed", BASE.get("stable", BASE)) if isinstance(BASE, dict) else BASE
                lost = sorted(set(want) - set(out["passed"]))
                if lost:
                    return ident, "TESTS FAIL " + " ".join(lost[:6])
            r = ns(d, "bash %s/demo.sh" % lay)
            if (r.returncode == 0) == patched:
                return ident, "DEMO rc=%d patched=%s %s" % (r.returncode, patched, r.stdout[-1500:])
            msg.append(r.stdout.strip()[-120:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(lay, ignore_errors=True)
    return ident, "ok  [%s]" % msg[-1]


def check(ident, prop=None, tier="quick"):
    s = os.path.join(V, "seeded", ident)
    prop = prop or json.load(open(os.path.join(s, "meta.json")))["property"]
    d = copy(ident, os.path.join(s, "patch.diff"))
    try:
        env = dict(os.environ, ZCM_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
        r = subprocess.run([V + "/bin/check", prop, tier], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any("property=" + prop in l for l in v)
    return ident, ("CAUGHT by %s: %s" % (prop, v[0][:150]) if ok else "MISSED by %s rc=%d %s" % (prop, r.returncode, r.stdout[-400:]))


if __name__ == "__main__":
    what, rest = sys.argv[1], sys.argv[2:]
    opt = {}
    while "--prop" in rest or "--tier" in rest:
        k = "--prop" if "--prop" in rest else "--tier"
        i = rest.index(k)
        opt[k[2:]] = rest[i + 1]
        del rest[i:i + 2]
    ids = rest or sorted(os.listdir(os.path.join(V, "seeded")))
    if what in ("confirm", "all"):
        with ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(confirm, ids):
                print(i, m, flush=True)
    if what in ("check", "all"):
        for i in ids:
            print(*check(i, **opt), flush=True)
