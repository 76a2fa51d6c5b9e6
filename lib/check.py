"""Runs the checks of one property: build, generate, execute, judge with TLC, record evidence."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

import build
import explore
import gen
import props
import tlc

VERIF = build.VERIF
RUN_TIMEOUT = 240


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Cover:
    """what a run covered"""

    def __init__(self):
        self.states = self.transitions = self.sessions = self.calls = 0
        self.ops, self.models, self.notes, self.samples = set(), [], [], []


def units_of(p):
    out = []
    for u in p.units:
        out += build.swizzle_units() if u == "swz" else [u]
    return out


def build_config(name, units):
    if name == "clang":
        return build.build("clang", units, ["-O1"], cxx="clang++")
    if name == "sanitized":
        return build.build("sanitized", units, ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                                  "-fno-sanitize=signed-integer-overflow,shift"])
    return build.build(name, units)


def list_ops(exe):
    out = subprocess.run([exe, "list"], capture_output=True, text=True, check=True).stdout
    return [gen.Op(l) for l in out.splitlines()]


def drive(exe, sessions, work, tag):
    """runs the sessions; returns one recorded line per session.  A session that kills the driver is a violation."""
    script, out = os.path.join(work, tag + ".txt"), os.path.join(work, tag + ".json")
    with open(script, "w") as f:
        f.write(gen.script(sessions))
    try:
        r = subprocess.run([exe, "run", script, out], capture_output=True, text=True, timeout=RUN_TIMEOUT)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = "no end within %d s" % RUN_TIMEOUT, ""
    if rc == 0:
        with open(out) as f:
            lines = f.read().splitlines()
        if len(lines) != len(sessions):
            raise RuntimeError("driver recorded %d of %d sessions" % (len(lines), len(sessions)))
        return lines
    if rc == 3:
        raise RuntimeError("driver: " + err)
    if len(sessions) == 1:
        raise Violation("the call does not return a value: driver ended with %s %s" % (rc, err.strip()[-400:]),
                        {"session": sessions[0], "exe": os.path.basename(exe)})
    h = len(sessions) // 2
    drive(exe, sessions[:h], work, tag)
    drive(exe, sessions[h:], work, tag)
    raise RuntimeError("driver ended with %s, but not on any part of the script: %s" % (rc, err[-400:]))


def judge(lines, work, cover, module="Trace", cfg="Trace.cfg", timeout=800):
    """TLC over recorded sessions; returns the index of a session the specification rejects, or None"""
    path = os.path.join(work, "trace.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = tlc.run(module, cfg, env={"TRACE": path}, timeout=timeout)
    cover.states += r.distinct
    cover.transitions += r.transitions
    if r.ok:
        return None
    return int(r.last("sid")) - 1, r.trace


def decode(line):
    """a recorded session in readable form"""
    s = json.loads(line)
    types = {}
    out = []
    for e in s["e"]:
        vals = []
        for k, lanes in enumerate(e["r"]):
            vals.append("r%d=%s" % (e["d"][k], lanes))
        if e["c"] == "load":
            out.append("load " + " ".join(vals))
        else:
            out.append("%s.%s%s(%s) -> %s%s" % (e["c"], e["o"], ":" + "".join(e["p"]) if e["p"] else "", ",".join("r%d" % a for a in e["a"]),
                                                " ".join(vals), " ALSO CHANGED r%s" % e["x"] if e["x"] else ""))
    return out


def floats(line):
    s = json.loads(line)
    return [[e["c"] + "." + e["o"], [[repr(gen.val(x)) if -2**31 <= x < 2**31 else x for x in l] for l in e["r"]]] for e in s["e"]]


def guided(p, units, sel, g, tier, cover):
    """sessions whose inputs were chosen, out of very many, for what they exercise (explore.py)"""
    exe = build.build("cover", units, plain=["cover"])
    listed = list_ops(exe)
    ops = [o for o in listed if sel(o) and o.cls != "const"]
    rounds = 3
    total = p.guided * (1 if tier == "quick" else 2)
    sessions, tried = explore.explore(exe, listed, ops, "%s" % g.r.random(), max(20, total // (max(1, len(ops)) * (rounds + 1))), rounds,
                                      9000 if tier == "quick" else 20000)
    cover.notes.append("%d candidate calls, of which %d were chosen for the code they reach and the comparisons they come close to" % (tried, len(sessions)))
    most = 6000 if tier == "quick" else 30000
    extra = [gen.single(o, args) for o in ops for args in explore.structured(g, o)]
    while extra and len(extra) < most / 3:
        extra += [gen.single(o, args) for o in ops for args in explore.structured(g, o)]
    g.r.shuffle(extra)
    cover.notes.append("%d calls with arguments of special shape or in a special relation" % len(extra[:most]))
    return sessions + extra[:most]


def trace_round(pid, p, ops, exes, g, n, hist, cover, work, enumerate_all, more=()):
    """one batch of generated sessions, executed on every build and judged"""
    sessions = list(more)
    if enumerate_all and p.extra:
        sessions += list(p.extra(ops, g))
    if ops and n:
        w = [3 if o.ret or any(o.inout) else 1 for o in ops]
        per = max(2, n // len(ops))
        for o in ops:
            for _ in range(per):
                if g.r.random() < .06 and o.types:
                    sessions.append(gen.sequence(g, o, ops))
                    continue
                extra = ()
                if g.r.random() < .2 and o.types:
                    t = g.r.choice(o.types)
                    extra = [(t, g.generic(t))]
                sessions.append(gen.single(o, g.args(o), extra, g.r if len(o.types) > 1 and g.r.random() < .15 else None))
    for _ in range(hist):
        if p.banks:
            bank = g.r.choice(p.banks)
            prof = "good" if g.r.random() < (.8 if p.prof == "good" else .4) else "bits"
            sessions.append(gen.history(g, ops, bank, p.length if prof == "bits" else max(4, p.length // 3), lambda t: g.generic(t, (), prof)))
    g.r.shuffle(sessions)
    run_sessions(sessions, exes, cover, work)


def run_sessions(sessions, exes, cover, work):
    cover.sessions += len(sessions)
    cover.calls += sum(1 for s in sessions for st in s[2] if st[0] == "O")
    seen, lines, back = set(), [], []
    for name, exe in exes:
        try:
            rec = drive(exe, sessions, work, name)
        except Violation as v:
            v.data["build"] = name
            raise
        for k, line in enumerate(rec):
            if line not in seen:
                seen.add(line)
                lines.append(line)
                back.append((name, exe, k))
    cover.notes.append("%d distinct recordings" % len(lines))
    cover.samples += [decode(l) for l in lines[:2]]
    bad = judge(lines, work, cover)
    if bad is None:
        return
    i, text = bad
    name, exe, k = back[i]
    # once more, alone
    again = drive(exe, [sessions[k]], work, "confirm")
    if judge(again, work, Cover()) is None:
        # the recorded results depend on what ran before: that is a violation as well (purity), shown by the recording
        note = "rejected in a longer run only; alone the session conforms"
    else:
        note = "confirmed alone"
    raise Violation("the recorded session is not a behaviour of the specification (%s build, %s)" % (name, note),
                    {"build": name, "session": sessions[k], "recorded": decode(lines[i]), "as_floats": floats(lines[i])})


def start_laws(pid, tier):
    """model checks the laws of the specification the property rests on, beside the rest of the check"""
    import concurrent.futures as cf
    ex = cf.ThreadPoolExecutor(max_workers=1)
    return ex.submit(run_laws, props.LAWS.get(pid, ()), tier)


def run_laws(models, tier):
    out = []
    for m in models:
        cfg = m + ".cfg"
        if tier == "thorough" and os.path.exists(os.path.join(VERIF, "spec", m + "-full.cfg")):
            cfg = m + "-full.cfg"
        r = tlc.run(m.split("-")[0], cfg, timeout=700, workers=4)
        out.append((cfg, r))
        if not r.ok:
            raise RuntimeError("the specification itself violates %s in %s\n%s" % (r.violated, cfg, r.trace[:3000]))
    return out


def end_laws(future, cover):
    for cfg, r in future.result():
        cover.states += r.distinct
        cover.transitions += r.transitions
        cover.models.append({"model": cfg, "states": r.distinct, "transitions": r.transitions, "depth": r.depth})


def ops_check(pid, tier, seed, cover, work, deadline):
    p = props.PROPS[pid]
    units = units_of(p)
    configs = ["debug", "release"] + (["clang", "sanitized"] if tier == "thorough" else [])
    exes = [(c, build_config(c, units)) for c in configs]
    ops = [o for o in list_ops(exes[0][1]) if p.sel(o)]
    cover.ops = {o.key for o in ops}
    rnd = 0
    while True:
        g = gen.Gen("%s/%s/%d" % (pid, seed, rnd))
        n = p.quick if tier == "quick" else p.quick * 2
        more = guided(p, units, p.sel, g, tier, cover) if p.guided else ()
        trace_round(pid, p, ops, exes, g, n, p.hist if tier == "quick" else p.hist * 3, cover, work, rnd == 0, more)
        rnd += 1
        if tier == "quick" or time.time() > deadline:
            break
    cover.notes.append("%d rounds on builds %s" % (rnd, ", ".join(configs)))


def write_evidence(pid, tier, seed, cover, t0, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "model_checking",
          "coverage": {"states": cover.states, "transitions": cover.transitions, "traces_validated_against_impl": cover.sessions,
                       "calls": cover.calls, "samples": cover.samples[:4], "operations": len(cover.ops), "models": cover.models, "notes": cover.notes},
          "assumptions": ["the TLA+ arithmetic overrides compute what their TLA+ definitions say (checked by MC_Arith)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def report(pid, v):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, os.getpid()))
    data = dict(v.data)
    data.update(property=pid, what=v.what)
    if "session" in data:
        data["script"] = gen.script([data["session"]])
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    print(v.what)
    for l in data.get("recorded", [])[-12:]:
        print("   ", l)
    if data.get("as_floats"):
        print("    as floats:", data["as_floats"][-4:])
    print("VIOLATION property=%s replay=%s" % (pid, path))


def replay(path):
    data = json.load(open(path))
    p = props.PROPS[data["property"]]
    work = tempfile.mkdtemp(prefix="zcm_")
    try:
        exe = build_config(data.get("build", "debug"), units_of(p))
        s = data["session"]
        line = drive(exe, [(s[0], s[1], [tuple(x) for x in s[2]])], work, "replay")
        print("\n".join(decode(line[0])))
        bad = judge(line, work, Cover())
        print("rejected by the specification" if bad else "accepted by the specification")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if len(argv) == 3 and argv[1] == "replay":
        return replay(argv[2])
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    cover = Cover()
    work = tempfile.mkdtemp(prefix="zcm_")
    budget = int(os.environ.get("VERIF_BUDGET", "420"))
    try:
        try:
            import special
            f = special.CHECKS.get(pid, ops_check)
            laws = start_laws(pid, tier)
            f(pid, tier, seed, cover, work, t0 + budget)
            end_laws(laws, cover)
        except build.BuildError as e:
            if e.kind == "library":
                print(e.log[-3000:])
                raise
            raise Violation("a program that uses the library's interface does not build: %s\n%s" % (e.what, e.log[:1500]), {"unit": e.what, "log": e.log[:8000]})
    except Violation as v:
        report(pid, v)
        write_evidence(pid, tier, seed, cover, t0, [v.what])
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    write_evidence(pid, tier, seed, cover, t0, [])
    print("%s %s: held on %d sessions (%d calls of %d operations), %d states, %.1f s" % (pid, tier, cover.sessions, cover.calls, len(cover.ops), cover.states, time.time() - t0))
    return 0
