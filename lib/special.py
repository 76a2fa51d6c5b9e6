"""Checks that need more than single calls judged one by one."""
import json
import os
import re
import shutil
import subprocess
import sys

import build
import check
import explore
import gen
import props
import tlc

VERIF = build.VERIF


def judged(records, work, cover, module, what, show):
    """TLC over one JSON record per session"""
    bad = check.judge([json.dumps(r) if not isinstance(r, str) else r for r in records], work, cover, module, module + ".cfg")
    if bad is not None:
        r = records[bad[0]]
        raise check.Violation(what, {"recorded": show(json.loads(r) if isinstance(r, str) else r)})


# ---- hash functions ------------------------------------------------------------------------------------------------
def hash_sessions(ops, g, n):
    out = []
    zero = lambda v: [gen.s32(0x80000000) if x == 0 and g.r.random() < .5 else 0 if x in (0, gen.INT_MIN) and g.r.random() < .5 else x for x in v]
    for o in ops:
        if o.cls != "h":
            continue
        t = o.types[0]
        kind, w = gen.TYPES[t]
        fl = lambda: g.r.choice((0, gen.INT_MIN, g.bits(), g.small(3), g.mod(8)))
        for _ in range(n):
            base = [fl() for _ in range(w)] if kind == "f" else g.generic(t)
            vs = [base]
            for _ in range(11):
                v = list(g.r.choice(vs))
                if kind == "f" and g.r.random() < .6:
                    v = zero(v)
                elif g.r.random() < .5:
                    i = g.r.randrange(w)
                    v[i] = fl() if kind == "f" else g.generic(t)[i]
                vs.append(v)
            out.append(("eq", o, vs))
        for i in range(w):
            for k in range(max(2, n // 3)):
                base = ([g.mod(6) for _ in range(w)] if k % 3 else [0] * w) if kind == "f" else [g.r.choice((g.r.randint(-99, 99), g.ilane())) for _ in range(w)] if kind == "i" else g.bvec(w)
                if k % 2 and kind != "b":                          # lanes equal to, or opposite of, one another
                    for j in range(w):
                        x = base[g.r.randrange(w)]
                        base[j] = g.r.choice((base[j], x, x, gen.s32(-x) if kind == "i" else gen.s32(x ^ gen.INT_MIN)))
                out.append(sensitive(o, g, base, i))
    return out


def sensitive(o, g, base, i):
    """one value with its i-th lane varied"""
    kind = gen.TYPES[o.types[0]][0]
    vs = []
    for j in range(2 if kind == "b" else 16):
        v = list(base)
        v[i] = j if kind == "b" else g.mod(10) if kind == "f" else g.ilane()
        vs.append(v)
    return ("sens", o, vs)


def hash_guided(g, tier, cover):
    """values chosen for the code they reach in the hash functions, each lane of theirs varied"""
    exe = build.build("cover", ["reg_hash"], plain=["cover"])
    listed = [o for o in check.list_ops(exe)]
    k = 1 if tier == "quick" else 5
    got, n = explore.choose(exe, listed, [o for o in listed if o.cls == "h"], "%s" % g.r.random(), 8000 * k, 3, 60 * k * len(listed))
    cover.notes.append("%d candidate values to hash, of which %d were chosen" % (n, len(got)))
    out = []
    for no, args, _ in got:
        o, v = listed[no], args[0]
        if gen.TYPES[o.types[0]][0] != "f" or all(abs(gen.val(x)) < float("inf") for x in v):
            out += [sensitive(o, g, v, i) for i in range(len(v))]
    return out


def hash_script(items):
    ses = []
    for kind, o, vs in items:
        steps = []
        for v in vs:
            steps += [("L", 1, v), ("O", o.key, [1, 2])]
        ses.append((o.key, [o.types[0], "u"], steps))
    return ses


def hash_judge(items, exes, cover, work):
    ses = hash_script(items)
    recs, seen = [], set()
    for name, exe in exes:
        for (kind, o, _), line in zip(items, check.drive(exe, ses, work, name)):
            d = json.loads(line)
            d.update(kind=kind, t=o.types[0], build=name)
            key = line + kind
            if key not in seen:
                seen.add(key)
                recs.append(d)
    cover.sessions += len(ses)
    cover.calls += sum(len(s[2]) // 2 for s in ses)
    cover.samples += [check.decode(json.dumps(recs[0]))]
    judged(recs, work, cover, "Hash", "equal values have different hashes, or a component does not take part in the hash",
           lambda r: [r["kind"] + " " + r["k"] + " on the " + r["build"] + " build"] + check.decode(json.dumps(r)))


# ---- containers ----------------------------------------------------------------------------------------------------
def histories(cfg, cover, simulate=None, args=()):
    """histories printed by the specification"""
    r = tlc.run("ContainerGen", cfg, simulate=simulate, args=args, workers=1)
    if not r.ok:
        raise RuntimeError("ContainerGen: " + r.trace[:2000])
    cover.states += r.distinct
    cover.transitions += r.transitions
    cover.models.append({"model": cfg, "states": r.distinct, "transitions": r.transitions})
    hs, seen = [], set()
    for chunk in re.split(r'<<\s*"HIST"\s*,', r.out)[1:]:
        body = chunk[:re.search(r">>\s*>>\s*>>", chunk).end()]
        h = tuple((a, int(b), int(c)) for a, b, c in re.findall(r'<<\s*"(\w+)",\s*(\d+),\s*(\d+)\s*>>', body))
        stem = h[:-1] if simulate else h     # a simulation prints every possible last step of a walk
        if stem not in seen:
            seen.add(stem)
            hs.append(list(h))
    return hs


def keys_for(t, g, n):
    """n keys of a type; the first two compare equal (and differ in bits when the type has signed zeros)"""
    kind, w = gen.TYPES[t]
    r = g.r
    while True:
        if kind == "f":
            a = [r.choice((0, 0, g.small(3), g.mod(4))) for _ in range(w)]
            a[r.randrange(w)] = 0
            b = [gen.INT_MIN if x == 0 and r.random() < .6 else x for x in a]
        elif kind == "i":
            a = [r.choice((0, 1, -1, r.randint(-99, 99), g.r.choice(gen.I_SPECIAL))) for _ in range(w)]
            b = list(a)
        else:
            a = g.bvec(w)
            b = list(a)
        ks = [a, b]
        for _ in range(40):
            if len(ks) == n:
                return ks
            c = list(r.choice(ks))
            i = r.randrange(w)
            c[i] = g.mod(5) if kind == "f" else r.choice((c[i] ^ 1, g.ilane())) if kind == "i" else 1 - c[i]
            if r.random() < .2:
                r.shuffle(c)
            canon = lambda v: [0 if x == gen.INT_MIN and kind == "f" else x for x in v]
            if all(canon(c) != canon(k) for k in ks):
                ks.append(c)
        if kind == "b" and 2 ** w + 1 < n:
            n = 2 ** w + 1


def container_script(kind, t, hist, ks, g, dense):
    out = ["S %s %s" % (kind, t)]
    lanes = lambda k: " ".join(map(str, ks[(k - 1) % len(ks)]))
    ordered = kind in ("set", "map")
    observe = ["find", "count"] + (["lower"] if ordered else [])
    for op, k, v in hist:
        if op == "put" and kind in ("uset", "set"):
            op = "insert"
        out.append("%s %d %s" % (op, v, lanes(k)) if op != "clear" else "clear 0")
        if g.r.random() < .1 and not ordered:
            out.append("rehash %d" % g.r.choice((1, 2, 17, 100)))
        for q in (range(1, len(ks) + 1) if dense else [g.r.randint(1, len(ks))]):
            out.append("%s 0 %s" % (g.r.choice(observe), lanes(q)))
        if g.r.random() < .3:
            out.append(g.r.choice(("size 0", "walk 0")))
    return out + ["walk 0", "size 0"]


def run_containers(exes, lines, count, work, cover):
    path, out = os.path.join(work, "c.txt"), os.path.join(work, "c.json")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    recs, seen = [], set()
    for name, exe in exes:
        try:
            r = subprocess.run([exe, path, out], capture_output=True, text=True, timeout=check.RUN_TIMEOUT)
        except subprocess.TimeoutExpired:
            raise check.Violation("container operations do not end", {"build": name, "recorded": lines[:50]})
        if r.returncode == 3:
            raise RuntimeError(r.stderr)
        if r.returncode:
            raise check.Violation("container operations end with %d %s" % (r.returncode, r.stderr[-300:]), {"build": name, "recorded": lines[:50]})
        got = open(out).read().splitlines()
        if len(got) != count:
            raise RuntimeError("containers recorded %d of %d" % (len(got), count))
        for l in got:
            if l not in seen:
                seen.add(l)
                recs.append(l)
    cover.sessions += count
    cover.calls += len(lines) - count
    cover.samples.append(json.loads(recs[0])["e"][:6])
    judged(recs, work, cover, "ContainerTrace", "a container keyed by the library's type does not behave as a set or map",
           lambda r: ["%s of %s" % (r["k"], r["t"])] + ["%s %s %s -> %s %s" % (e["o"], e["v"], e["a"], e["r"], e["w"]) for e in r["e"]])


def containers(kinds, types, tier, g, cover, work, exes):
    hs = histories("ContainerGen.cfg", cover)
    long_ = histories("ContainerGen-walk.cfg", cover, simulate="num=%d" % (400 if tier == "quick" else 3000), args=["-depth", "45", "-seed", str(g.r.randrange(10**6))])
    if len(hs) < 1000 or len(long_) < 100:
        raise RuntimeError("the specification printed %d and %d histories" % (len(hs), len(long_)))
    combos = [(k, t) for k in kinds for t in types]
    lines, n = [], 0
    pick = hs if tier == "thorough" else g.r.sample(hs, 3000)
    for i, h in enumerate(pick):
        k, t = combos[i % len(combos)]
        lines += container_script(k, t, h, keys_for(t, g, 4), g, True)
        n += 1
    for i, h in enumerate(long_ * (2 if tier == "quick" else 4)):
        k, t = combos[i % len(combos)]
        lines += container_script(k, t, h, keys_for(t, g, 9), g, False)
        n += 1
    run_containers(exes, lines, n, work, cover)


def container_exes():
    return [(c, build.build(c, ["containers"], main=None)) for c in ("debug", "release")]


def hash_check(pid, tier, seed, cover, work, deadline):
    exes = [(c, build.build(c, ["reg_hash"])) for c in ("debug", "release")]
    cex = container_exes()
    ops = check.list_ops(exes[0][1])
    cover.ops = {o.key for o in ops}
    rnd = 0
    while True:
        g = gen.Gen("%s/%s/%d" % (pid, seed, rnd))
        hash_judge(hash_sessions(ops, g, 60 if tier == "quick" else 200) + hash_guided(g, tier, cover), exes, cover, work)
        containers(["uset", "umap"], ["v2", "v3", "v4", "q", "m2", "m3", "m4", "i2", "i3", "i4", "b2", "b3", "b4"], tier, g, cover, work, cex)
        hash_threads(ops, g, tier, cover, work, exes)
        rnd += 1
        if tier == "quick" or check.time.time() > deadline:
            break


def hash_threads(ops, g, tier, cover, work, exes):
    purity(ops, g, 4, 200, cover, work, exes[:1], "the hash of a value differs between calls or threads")


def order_check(pid, tier, seed, cover, work, deadline):
    check.ops_check(pid, tier, seed, cover, work, deadline)
    g = gen.Gen("%s/containers/%s" % (pid, seed))
    containers(["set", "map"], ["i2", "i3", "i4"], tier, g, cover, work, container_exes())


# ---- purity --------------------------------------------------------------------------------------------------------
def purity(ops, g, per, calls, cover, work, exes, what, threads=8):
    """per: instances of each operation, the arguments of the instances by operation, or groups of operations with arguments"""
    lines, inst = [], []
    if isinstance(per, list):
        groups = per
    else:
        groups = [[(o, a) for a in (per[o.key] if isinstance(per, dict) else gen.groups_of(o, g, per))] for o in ops]
    for group in groups:
        lines.append("G")
        for o, a in group:
            lines.append("I %s %s" % (o.key, " ".join(str(x) for v in a for x in v)))
            inst.append((o, a))
    path = os.path.join(work, "stress.txt")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    recs = [{"o": o.key, "args": a, "e": []} for o, a in inst]
    for name, exe in exes:
        out = os.path.join(work, "stress.json")
        try:
            r = subprocess.run([exe, "stress", path, out, str(threads), str(calls)], capture_output=True, text=True, timeout=check.RUN_TIMEOUT)
        except subprocess.TimeoutExpired:
            raise check.Violation("concurrent calls do not end", {"build": name})
        if r.returncode == 3:
            raise RuntimeError(r.stderr)
        if r.returncode:
            raise check.Violation("concurrent calls end with %d %s" % (r.returncode, r.stderr[-300:]), {"build": name})
        got = open(out).read().splitlines()
        if len(got) != len(inst):
            raise RuntimeError("stress recorded %d of %d" % (len(got), len(inst)))
        for rec, l in zip(recs, got):
            d = json.loads(l)
            rec["e"].append({"src": name + "/alone", "r": d["s"], "c": d["c"]})
            for x in d["d"]:
                rec["e"].append({"src": name + "/threads", "r": x, "c": d["c"]})
            cover.calls += d["n"]
    cover.sessions += len(recs)
    cover.samples.append(recs[0])
    slim = [{"e": r["e"]} for r in recs]
    bad = check.judge([json.dumps(x) for x in slim], work, cover, "Pure", "Pure.cfg")
    if bad is not None:
        r = recs[bad[0]]
        raise check.Violation(what, {"recorded": [r["o"], "arguments %s" % r["args"]] + ["%s -> %s%s" % (e["src"], e["r"], " an argument changed" if e["c"] else "") for e in r["e"]]})


PURE_UNITS = ["reg_" + u for u in "float int bool inplace access cmp layout common geom mat trans xform quat color const hash".split()]


SIMPLE = {"f", "i", "b", "k", "inc", "iinc", "c", "ic", "al", "alx", "ial", "ialx", "const", "swz"}


def pure_guided(g, tier, cover, work, exes, what):
    """calls chosen for the code they reach and the comparisons they come close to, each with the call that came before
    it when it was chosen: the outcome of a comparison with something kept from an earlier call counts as well"""
    exe = build.build("cover", PURE_UNITS, plain=["cover"])
    listed = check.list_ops(exe)
    groups, tried = {}, 0
    k = 1 if tier == "quick" else 4
    for ops, per, each in ([o for o in listed if o.cls not in SIMPLE], 500 * k, 30 * k), ([o for o in listed if o.cls in SIMPLE], 30 * k, 4 * k):
        got, n = explore.choose(exe, listed, ops, "%s" % g.r.random(), per, 3, each * len(ops))
        tried += n
        for no, args, before in got:
            groups.setdefault(listed[no].key, []).extend([args] if before is None else [before, args])
    ops = [o for o in listed if o.key in groups]
    cover.notes.append("%d candidate calls, of which %d were chosen with their predecessors" % (tried, sum(map(len, groups.values())) // 2))
    purity(ops, g, groups, 600 * k, cover, work, exes, what)


def lane_families(ops, g, n):
    out = {}
    for o in ops:
        got = []
        for _ in range(n if o.types and o.cls not in ("k", "const") else 0):
            if o.cls in SIMPLE and len(got) > 12:
                break
            got += [a for a in (explore.repair(g, o, x, {}) for x in gen.lane_family(o, g, 9 if o.cls in SIMPLE else 14)) if a is not None]
        out[o.key] = got
    return out


def ordinary(o, g):
    """arguments of ordinary size, of no particular shape unless the operation is of use for nothing else"""
    for _ in range(20):
        args = explore.repair(g, o, [[g.mod(3) for _ in x] if gen.TYPES[t][0] == "f" else list(x) for t, x in zip(o.types, g.args(o))], {})
        if args is not None:
            return args
    return g.args(o)


def mixed_groups(ops, g, n, size=10, far=.1):
    """calls of different operations, as far as possible with the same arguments"""
    ops = [o for o in ops if o.types and o.cls not in ("k", "const", "swz")]
    out = []
    for _ in range(n):
        o = g.r.choice(ops)
        near = [x for x in ops if set(x.types) & set(o.types) and (x.cls == o.cls or g.r.random() < far)]
        pool, group = {}, []
        for x in [o] + g.r.sample(near, min(len(near), size - 1)):
            for _ in range(3):
                args = g.args(x)
                for k, t in enumerate(x.types):
                    vs = pool.setdefault(t, [])
                    if len(vs) < 2:
                        vs.append(list(args[k]))
                    elif g.r.random() < .8:
                        args[k] = list(g.r.choice(vs))
                args = explore.repair(g, x, args, {})
                if args is not None:
                    group.append((x, args))
        out.append(group)
    return out


def pure_check(pid, tier, seed, cover, work, deadline):
    units = PURE_UNITS + build.swizzle_units()
    exes = [(c, build.build(c, units)) for c in ("debug", "release")]
    ops = check.list_ops(exes[0][1])
    cover.ops = {o.key for o in ops}
    rnd = 0
    main = [o for o in ops if o.cls != "swz"]
    swz = [o for o in ops if o.cls == "swz"]
    what = "one call with one set of arguments gave different results"
    while True:
        g = gen.Gen("%s/%s/%d" % (pid, seed, rnd))
        g.r.shuffle(main)
        g.r.shuffle(swz)
        purity(main, g, 8, 400 if tier == "quick" else 4000, cover, work, exes, what)
        purity(main, g, lane_families(main, g, 8 if tier == "quick" else 16), 400 if tier == "quick" else 3000, cover, work, exes, what)
        purity(main, g, {o.key: [ordinary(o, g)] for o in main}, 9000, cover, work, exes, what)   # more than 2^16 calls of each
        purity(main, g, mixed_groups(main, g, 600 if tier == "quick" else 3000), 600, cover, work, exes, what)
        rich = [o for o in main if o.cls not in SIMPLE and o.cls not in ("rel", "ir", "is", "red", "ired")]
        purity(main, g, mixed_groups(rich, g, 300 if tier == "quick" else 2000, 28, 1), 900, cover, work, exes, what)
        purity(swz, g, 3, 20, cover, work, exes, what)
        pure_guided(g, tier, cover, work, exes, what)
        rnd += 1
        if tier == "quick" or check.time.time() > deadline:
            break


# ---- the script that prints the swizzle tables ----------------------------------------------------------------------
def table_rows(n, k):
    script = os.path.join(build.REPO, "tools", "combinations.py")
    r = subprocess.run([sys.executable, "-B", script, str(n), str(k)], capture_output=True, text=True, timeout=60)
    if r.returncode:
        raise check.Violation("the swizzle table for %d components, %d letters is not printed: %s" % (n, k, r.stderr[-300:]), {})
    rows = []
    for line in r.stdout.splitlines():
        m = re.match(r".*<(.*)>(.*)$", line)
        if not m:
            if line.strip():
                raise check.Violation("a line of the swizzle table is not an entry: " + line, {})
            continue
        rows.append({"idx": [int(x) for x in re.findall(r"(?<!\w)\d+(?!\w)", m.group(1))][-k:], "names": re.findall(r"\w+", m.group(2))})
    return {"n": n, "k": k, "rows": rows}


def swizzle_check(pid, tier, seed, cover, work, deadline):
    tables = [table_rows(n, k) for n in (1, 2, 3, 4) for k in (1, 2, 3, 4) if n >= k]
    cover.sessions += len(tables)
    judged(tables, work, cover, "SwizzleTable", "the printed swizzle table does not list each combination once with its names",
           lambda t: ["%d components, %d letters" % (t["n"], t["k"])] + ["%s %s" % (r["idx"], r["names"]) for r in t["rows"]])
    check.ops_check(pid, tier, seed, cover, work, deadline)


def bench(*a):
    import bench as b
    b.bench_check(*a)


CHECKS = {"P06": swizzle_check, "P07": order_check, "P25": hash_check, "P26": pure_check, "P28": bench}
