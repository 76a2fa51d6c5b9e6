"""Guided choice of inputs: of very many candidate calls, those that exercise the library differently.

Candidates come from the generators and from mutating earlier choices, also towards the values the code itself compares
with.  An instrumented build (harness/cover.cpp) says which of them reach new code or come closer to a comparison's
boundary.  Nothing is judged here: the chosen calls are executed on the ordinary builds and judged by the specification
like all others."""
import array
import concurrent.futures as cf
import math
import multiprocessing
import struct
import subprocess
import threading

import gen
from gen import TYPES, pat, val

MIXABLE = {"k", "swz"}     # classes whose arguments are never mutated lane by lane


class Died(Exception):
    pass


class Chooser:
    """one instrumented driver process"""

    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "explore"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def read(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise Died()
        return b

    def choose(self, batch, limit=60):
        """batch: (operation number, args); the chosen ones: (index, new code, [(site, a, b)..])"""
        out = [struct.pack("<i", len(batch))]
        for o, args in batch:
            flat = [x for a in args for x in a]
            out.append(struct.pack("<ii", o, len(flat)) + array.array("i", flat).tobytes())
        timer = threading.Timer(limit, self.p.kill)
        timer.start()
        try:
            try:
                self.p.stdin.write(b"".join(out))
                self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                raise Died()
            res = []
            for _ in range(struct.unpack("<i", self.read(4))[0]):
                k, fresh, n = struct.unpack("<iii", self.read(12))
                raw = self.read(20 * n)
                res.append((k, fresh, [struct.unpack_from("<Idd", raw, 20 * i) for i in range(n)]))
            return res
        finally:
            timer.cancel()

    def close(self):
        self.p.kill()
        self.p.communicate()


# ---- keeping arguments inside the domain the property speaks about --------------------------------------------------
def unit_of(v):
    x = [val(a) for a in v]
    if not all(math.isfinite(a) for a in x):
        return None
    m = max(abs(a) for a in x)
    if m == 0:
        return None
    x = [a / m for a in x]
    l = math.sqrt(sum(a * a for a in x))
    return [pat(a / l) for a in x]


def clamp(p, lo, hi):
    x = val(p)
    return pat(lo if not x >= lo else hi if x > hi else x)


UNITS = {("g", "orthogonal_branchless"): [0], ("g", "encode_octahedral"): [0], ("g", "octround"): [0], ("q", "qv"): [0], ("q", "vq"): [1],
         ("q", "slerp"): [0, 1], ("q", "angleAxis"): [1], ("q", "angle"): [0], ("q", "axis"): [0],
         ("q", "eulerAngles"): [0], ("q", "pitch"): [0], ("q", "yaw"): [0], ("q", "roll"): [0], ("q", "mat3_cast"): [0], ("q", "mat4_cast"): [0],
         ("q", "castround"): [0], ("q", "castround4"): [0], ("q", "lookRH"): [0], ("q", "lookLH"): [0]}


def repair(g, op, args, units=UNITS):
    """the arguments changed as little as needed to be in the domain of the operation, or None"""
    key = (op.cls, op.op)
    for k in units.get(key, ()):
        u = unit_of(args[k])
        if u is None:
            return None
        args[k] = u
    if key[0] == "q" and key[1] in ("lerp", "nlerp", "slerp"):
        args[2] = [clamp(args[2][0], 0., 1.)]
    if key == ("g", "decode_octahedral"):
        args[0] = [clamp(x, -1., 1.) for x in args[0]]
    if op.cls == "x" and op.op.startswith("perspective"):
        f, a, n, z = (val(x[0]) for x in args)
        if not (0.01 < f < 3.13 and 1e-3 < a < 1e3 and 1e-6 < n < z < 1e8 and z > n * 1.0001):
            return None
    if op.cls == "col" and len(args) > 1:
        args[1] = [clamp(args[1][0], .1, 10.)]
    if op.op in ("div", "rem", "shl", "shr") and TYPES[op.types[0]][0] == "i" and op.cls in ("i", "ic", "ial", "ialx"):
        own = "xyzw".index(op.par[0]) if op.cls in ("ial", "ialx") else None
        y = args[-1]
        for i in range(len(y)):
            if own is None or i == own:
                y[i] = y[i] & 31 if op.op in ("shl", "shr") else y[i] or 1
        if op.op in ("div", "rem") and any(x == -1 for x in y) and any(x == gen.INT_MIN for x in args[0]):
            return None
    for k, t in enumerate(op.types):
        if TYPES[t][0] == "b":
            args[k] = [x & 1 for x in args[k]]
    return args


# ---- arguments of special shape, or in a special relation to one another ---------------------------------------------
def shapes_of(n):
    return ["zero", "alike", "equal", "rising", "falling", "integral", "negative", "half"] + \
        [("only", i) for i in range(n)] + [("-only", i) for i in range(n)] + ([("but", i) for i in range(n)] if n > 2 else [])


RELATIONS = ("same", "opposite", "conjugate", "reversed", "parallel", "perpendicular", "length", "turned", "lane")
MATRICES = ("identity", "diagonal", "upper", "lower", "symmetric", "antisymmetric", "rotation", "mirror", "affine", "shear", "hollow", "rank1",
            "permutation", "unimodular")


def shaped(g, n, how):
    r = g.r
    x = [val(a) for a in ([g.mod(3) for _ in range(n)] if r.random() < .6 else [pat(r.uniform(-1, 1)) for _ in range(n)])]
    if how == "zero":
        x = [r.choice((0., -0.)) for _ in x] if r.random() < .3 else [0.] * n
    elif how == "alike":
        x = [x[0] * r.choice((1, -1)) for _ in x]
    elif how == "equal":
        x = [x[0]] * n
    elif how in ("rising", "falling"):
        x.sort(reverse=how == "falling")
    elif how == "integral":
        x = [float(r.randint(-9, 9)) for _ in x]
    elif how == "negative":
        x = [-abs(a) for a in x]
    elif how == "half":
        x = [r.choice((-.5, .5)) for _ in x]
    elif how[0] in ("only", "-only"):
        a = r.choice((1., abs(x[0])))
        x = [0.] * n
        x[how[1]] = a if how[0] == "only" else -a
    elif how[0] == "but":
        x[how[1]] = 0.
    return [pat(a) for a in x]


def related(g, v, how):
    r = g.r
    x, n = [val(a) for a in v], len(v)
    if how == "opposite":
        x = [-a for a in x]
    elif how == "conjugate":
        x = [-a for a in x[:-1]] + x[-1:]
    elif how == "reversed":
        x = x[::-1]
    elif how == "parallel":
        f = r.choice((2., -2., .5, -3., r.uniform(-2, 2)))
        x = [a * f for a in x]
    elif how == "perpendicular" and n > 1:
        i, j = r.sample(range(n), 2)
        y = [0.] * n
        y[i], y[j] = x[j], -x[i]
        x = y
    elif how == "length":
        x = [a * r.choice((1, -1)) for a in x]
        r.shuffle(x)
    elif how == "turned":
        x = x[1:] + x[:1]
    elif how == "lane":
        x[r.randrange(n)] = r.choice((0., val(g.mod(3))))
    return [pat(a) for a in x]


def matrix_like(g, o, how):
    r = g.r
    a = [[float(r.randint(-5, 5)) if r.random() < .5 else r.uniform(-3, 3) for _ in range(o)] for _ in range(o)]     # columns
    each = lambda f: [[f(c, k) for k in range(o)] for c in range(o)]
    if how == "identity":
        a = each(lambda c, k: float(c == k))
    elif how == "diagonal":
        a = each(lambda c, k: a[c][k] if c == k else 0.)
    elif how == "upper":
        a = each(lambda c, k: a[c][k] if k <= c else 0.)
    elif how == "lower":
        a = each(lambda c, k: a[c][k] if k >= c else 0.)
    elif how == "symmetric":
        a = each(lambda c, k: a[min(c, k)][max(c, k)])
    elif how == "antisymmetric":
        a = each(lambda c, k: 0. if c == k else a[c][k] if c < k else -a[k][c])
    elif how in ("rotation", "mirror"):
        t = r.uniform(-3, 3)
        m = g.rot(g.real_quat())
        a = [[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]] if o == 2 else each(lambda c, k: m[3 * c + k] if c < 3 and k < 3 else float(c == k))
        if how == "mirror":
            a[0] = [-x for x in a[0]]
    elif how == "affine":
        a = each(lambda c, k: a[c][k] if k < o - 1 else float(c == k))
    elif how in ("shear", "unimodular"):
        low = each(lambda c, k: a[c][k] if k > c else float(c == k))
        up = each(lambda c, k: a[c][k] if k < c else float(c == k))
        a = low if how == "shear" else each(lambda c, k: sum(low[i][k] * up[c][i] for i in range(o)))
    elif how == "hollow":
        a = each(lambda c, k: 0. if c == k else a[c][k])
    elif how == "rank1":
        a = each(lambda c, k: a[0][k] * float(c + 1))
    elif how == "permutation":
        p = list(range(o))
        r.shuffle(p)
        a = each(lambda c, k: r.choice((1., -1.)) if p[c] == k else 0.)
    return [pat(x) for c in a for x in c]


def structured(g, op, rounds=1):
    """argument lists of an operation, each with one argument of a special shape or in a special relation to another"""
    out = []
    if op.cls in MIXABLE or op.op in ("decompose", "quat_cast"):
        return out
    fl = [k for k, t in enumerate(op.types) if TYPES[t][0] in "fi"]
    for _ in range(rounds):
        for k in fl:
            t, n = op.types[k], TYPES[op.types[k]][1]
            plans = [("s", h) for h in (MATRICES if t[0] == "m" else shapes_of(n) if n > 1 else ())]
            plans += [("r", j, h) for j in fl if j != k and TYPES[op.types[j]] == TYPES[t] for h in RELATIONS]
            for plan in plans:
                args = [list(a) for a in g.args(op)]
                if TYPES[t][0] == "i":
                    whole = lambda v: [gen.s32(int(val(x) * 4)) for x in v]
                    flat = lambda v: [pat(float(x)) for x in v]
                    if plan[0] == "s":
                        args[k] = whole(shaped(g, n, plan[1]))
                    else:
                        if max(map(abs, args[plan[1]])) > 9999 or g.r.random() < .3:
                            args[plan[1]] = [g.r.randint(-99, 99) for _ in range(n)]
                        args[k] = [gen.s32(int(val(x))) for x in related(g, flat(args[plan[1]]), plan[2])]
                elif plan[0] == "s":
                    args[k] = matrix_like(g, {4: 2, 9: 3, 16: 4}[n], plan[1]) if t[0] == "m" else shaped(g, n, plan[1])
                else:
                    if g.r.random() < .5:
                        args[plan[1]] = shaped(g, n, "any") if n == 1 else [g.mod(2) for _ in range(n)]
                    args[k] = related(g, args[plan[1]], plan[2])
                args = repair(g, op, args)
                if args is not None:
                    out.append(args)
    return out


def nudge(g, v, sites, dic):
    """a small or directed change of the lanes of one value"""
    r = g.r
    v = list(v)
    n = len(v)
    i = r.randrange(n)
    k = r.random()
    if k < .2 and dic:
        x = g.ulps(r.choice(dic), r.choice((0, 0, 0, 1, -1, 3, -9)))
        v[i] = gen.s32(x ^ 0x80000000) if r.random() < .3 else x
    elif k < .3:
        v[i] = g.ulps(v[i], r.choice((-1, 1)) * (1 << r.randint(0, 22)))
    elif k < .45:
        v[i] = pat(val(v[i]) * (1 + r.gauss(0, 1) * 10. ** -r.uniform(0, 7)))
    elif k < .7 and sites:
        _, a, b = r.choice(sites)
        if not (math.isfinite(a) and math.isfinite(b)):
            return v
        how = r.random()
        if how < .45 and a and b and a * b > 0:                   # the compared value is homogeneous in this argument
            f = abs(b / a) ** (r.choice((1, -1)) / r.choice((1., 1., 2., 2., 3., 4.))) * (1 + r.choice((0, 0, 1e-6, -1e-6, 1e-3, -1e-3)))
            if f < 1e30:
                return [pat(val(x) * f) for x in v] if r.random() < .7 else v[:i] + [pat(val(v[i]) * f)] + v[i + 1:]
        elif how < .8:                                            # or moves along with one of its lanes
            v[i] = pat(val(v[i]) + (b - a) * r.choice((1, -1, .5, 2)))
        else:
            v[i] = pat(r.choice((b, a, -b, 1 - b, 1 / b if b else 0., math.sqrt(abs(b)), b * b)))
    elif k < .78:
        v[i] = gen.s32(v[i] ^ 0x80000000)
    elif k < .84:
        v[i] = v[r.randrange(n)]
    elif k < .88:
        v[i] = r.choice((0, gen.INT_MIN, pat(1.), pat(-1.)))
    elif k < .92:
        r.shuffle(v)
    elif k < .96:
        f = 2. ** r.uniform(-12, 12)
        v = [pat(val(x) * f) for x in v]
    else:
        v[i] = g.mod(20)
    return v


def nudge_int(g, v, sites, dic):
    r = g.r
    v = list(v)
    i = r.randrange(len(v))
    k = r.random()
    if k < .3:
        x = v[i] + r.choice((-1, 1)) * (1 << r.randint(0, 20))
    elif k < .5:
        x = v[i] ^ (1 << r.randint(0, 31))
    elif k < .75 and sites:
        _, a, b = r.choice(sites)
        x = r.choice((int(a), int(b), v[i] + int(b - a), v[i] - int(b - a))) if abs(a) < 2.**40 and abs(b) < 2.**40 else v[i]
    elif k < .9:
        x = v[r.randrange(len(v))]
    else:
        x = -v[i]
    v[i] = gen.s32(x)
    return v


def turn(g, m, j):
    """the linear part (columns of length j) turned a little, in doubles"""
    r = g.r
    a = 10. ** -r.uniform(0, 6)
    ax = g.real_unit(3)
    q = [x * math.sin(a / 2) for x in ax] + [math.cos(a / 2)]
    R = g.rot(q)
    out = list(m)
    for c in range(3):
        col = [val(m[j * c + i]) for i in range(3)]
        for i in range(3):
            out[j * c + i] = pat(sum(R[3 * k + i] * col[k] for k in range(3)))
    return out


def mutate(g, op, args, sites, dic):
    r = g.r
    args = [list(a) for a in args]
    if op.op in ("decompose", "quat_cast") and op.cls in ("x", "q"):
        j = 3 if len(args[0]) == 9 else 4
        k = r.random()
        if k < .5 or op.op == "quat_cast":
            R = g.rot([val(x) for x in unit_of([pat(y + r.gauss(0, 1) * 10. ** -r.uniform(.5, 7)) for y in g.real_quat()])]) if k < .25 else None
            if R and op.op == "quat_cast":
                for c in range(3):
                    for i in range(3):
                        args[0][j * c + i] = pat(R[3 * c + i])
            else:
                args[0] = turn(g, args[0], j)
        elif k < .8:
            c = r.randrange(3)
            f = r.choice((-1, 1, 1)) * 2. ** r.uniform(-3, 3)
            if sites and r.random() < .5:
                _, a, b = r.choice(sites)
                if a and b and math.isfinite(a) and math.isfinite(b):
                    f = abs(b / a) ** (1 / r.choice((1., 2., 3.)))
            for i in range(3):
                args[0][j * c + i] = pat(val(args[0][j * c + i]) * f)
        else:
            args[0][12:15] = nudge(g, args[0][12:15], sites, dic)
        return args
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.randrange(len(args))
        kind = TYPES[op.types[k]][0]
        if r.random() < .12:
            fresh = g.args(op)
            args[k] = list(fresh[k])
        elif r.random() < .08:
            same = [j for j in range(len(args)) if op.types[j] == op.types[k]]
            args[k] = list(args[r.choice(same)])
        elif kind == "f":
            args[k] = nudge(g, args[k], sites, dic)
        elif kind == "i":
            args[k] = nudge_int(g, args[k], sites, dic)
        elif kind == "b":
            args[k][r.randrange(len(args[k]))] ^= 1
    return args


def literals(stats):
    """constants the code compares with: a side of a comparison that never changes"""
    out = set()
    for (pc, side), vs in stats.items():
        if len(vs) == 1:
            x = next(iter(vs))
            if math.isfinite(x):
                out.add(x)
    return out


def explore_ops(job):
    """worker: the chosen (operation number, args, args of the call before) of some operations"""
    exe, seed, ops, per, rounds, pool_cap = job
    g = gen.Gen(seed)
    c = Chooser(exe)
    chosen, suspects, tried = [], [], 0
    try:
        for no, op in ops:
            pool, stats, picked = [], {}, []
            for rnd in range(rounds + 1):
                batch = []
                if rnd == 0:
                    batch = [(no, g.args(op)) for _ in range(per)]
                elif op.cls in MIXABLE:
                    batch = [(no, a) for a in gen.groups_of(op, g, per)]
                else:
                    dic = [pat(x) for x in sorted(literals(stats))]
                    lead = pool[-40:]
                    for _ in range(per):
                        args, sites = g.r.choice(lead if g.r.random() < .4 else pool)
                        args = repair(g, op, mutate(g, op, args, sites, dic))
                        if args is not None:
                            batch.append((no, args))
                tried += len(batch)
                try:
                    res = c.choose(batch)
                except Died:
                    suspects += [(no, args, None) for no, args in batch[:2000]]
                    c.close()
                    c = Chooser(exe)
                    break
                for k, fresh, sites in res:
                    args = batch[k][1]
                    pool.append((args, sites))
                    picked.append((fresh, batch[k - 1][1] if k else None, args))     # with the call before it
                    for pc, a, b in sites:
                        for side, x in ((0, a), (1, b)):
                            s = stats.setdefault((pc, side), set())
                            if len(s) < 3:
                                s.add(x)
                if not op.types or (rnd == 0 and len(stats) == 0):
                    break
            if len(picked) > pool_cap:                             # what reached new code, the latest, and some of the rest
                first = [p for p in picked if p[0]]
                rest = [p for p in picked if not p[0]]
                g.r.shuffle(rest)
                picked = (first + rest)[:pool_cap]
            chosen += [(no, args, before) for _, before, args in picked]
    finally:
        c.close()
    return chosen, suspects, tried


def choose(exe, listed, ops, seed, per, rounds, cap, workers=8):
    """(operation number, args, args of the call before) chosen for the operations `ops` (all operations of the driver
    are `listed`) out of about `per` candidates an operation and round, at most `cap` in all; and how many were tried"""
    number = {o.key: i for i, o in enumerate(listed)}
    mine = [(number[o.key], o) for o in ops if o.types]
    if not mine:
        return [], 0
    n = workers * 3
    split = max(1, n // len(mine))                                 # few operations: several workers each
    parts = [mine[i::n] for i in range(n)] if split == 1 else [[m] for m in mine for _ in range(split)]
    pool_cap = max(12, cap // len(mine) // split)
    jobs = [(exe, "%s/%d" % (seed, i), p, max(20, per // split), rounds, pool_cap) for i, p in enumerate(parts) if p]
    chosen, tried = [], 0
    with cf.ProcessPoolExecutor(max_workers=workers, mp_context=multiprocessing.get_context("fork")) as ex:
        for got, suspects, n in ex.map(explore_ops, jobs):
            chosen += got + suspects
            tried += n
    return chosen, tried


def explore(exe, listed, ops, seed, per, rounds, cap):
    """one session for every chosen call"""
    chosen, tried = choose(exe, listed, ops, seed, per, rounds, cap)
    return [gen.single(listed[no], args) for no, args, _ in chosen], tried
