"""Seeded generators of operation arguments: which lanes each operation of the library is called with.

Only the choice of inputs lives here.  What the results must be is decided by the TLA+ specification; nothing in this
file computes an expected result.  Arguments that are undefined behaviour for the caller (division by a zero integer,
shift counts outside 0..31, indices outside the value, weights outside [0, 1] where the library asserts them) are not
generated."""
import math
import random
import struct

TYPES = {"f": ("f", 1), "i": ("i", 1), "b": ("b", 1), "u": ("u", 2)}
for _n in (2, 3, 4):
    TYPES["v%d" % _n] = ("f", _n)
    TYPES["i%d" % _n] = ("i", _n)
    TYPES["b%d" % _n] = ("b", _n)
    TYPES["m%d" % _n] = ("f", _n * _n)
    TYPES["a%d" % _n] = ("f", _n)
    TYPES["c%d" % _n] = ("b", _n)
TYPES.update({"q": ("f", 4), "a9": ("f", 9), "a16": ("f", 16)})
INT_MIN, INT_MAX = -2**31, 2**31 - 1


def pat(x):
    """bit pattern (as a signed integer) of the single-precision value nearest to x"""
    try:
        return struct.unpack("<i", struct.pack("<f", x))[0]
    except OverflowError:
        return pat(math.inf if x > 0 else -math.inf)


def val(p):
    return struct.unpack("<f", struct.pack("<i", p))[0]


def s32(u):
    u &= 0xffffffff
    return u - 2**32 if u >= 2**31 else u


F_SPECIAL = [s32(u) for u in (
    0x00000000, 0x80000000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x80800000, 0x7f7fffff, 0xff7fffff,
    0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0xffffffff, 0x3f800000, 0xbf800000, 0x3f7fffff,
    0x3f800001, 0x40000000, 0xc0000000, 0x3f000000, 0xbf000000, 0x34000000, 0x4b000000, 0x4b7fffff, 0x4b800000,
    0x4f000000, 0xcf000000, 0x5f000000)]
I_SPECIAL = [0, 1, -1, 2, -2, 3, 5, 7, 8, 15, 16, 31, 32, 255, 256, 65535, 65536, 2**30, -2**30, INT_MAX, INT_MIN, INT_MAX - 1,
             INT_MIN + 1, 0x55555555, s32(0xaaaaaaaa), 0x0f0f0f0f]


ORDER = {"m2": 2, "m3": 3, "m4": 4}
LANE_OPS = {"index", "indexw", "setidx", "ptrget", "ptrgetw", "ptrset", "liveptr", "livecptr", "liveidx", "livecidx", "liveset", "livename"}
COL_OPS = {"col": 1, "colw": 1, "setcol": 1, "coladd": 1, "colsub": 1, "colmul": 1, "coldiv": 1, "livecol": 1, "elem": 2, "setelem": 2,
           "colcoladd": 2, "colcolmul": 2, "colcolset": 2, "colelemmul": 3, "colelemdiv": 3}


def places(op):
    """an operation of class k: how many values each of its arguments after the first, read as an index, can take"""
    if op.op in LANE_OPS:
        return [TYPES[op.types[0]][1]]
    if op.op in COL_OPS and op.types[0] in ORDER:
        return [ORDER[op.types[0]]] * COL_OPS[op.op]
    return []


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ---- float lanes -------------------------------------------------------------------------------------------
    def bits(self):
        r = self.r
        k = r.random()
        if k < .35:
            return r.choice(F_SPECIAL)
        if k < .55:
            return s32(r.getrandbits(32))
        if k < .75:
            return pat(float(r.randint(-9, 9)))
        if k < .85:
            return pat(r.uniform(-100, 100))
        return self.mod(12)

    def mod(self, e=8):
        r = self.r
        return pat((r.random() + 1) * 2.0 ** r.randint(-e, e) * r.choice((-1, 1)))

    def small(self, n=9):
        return pat(float(self.r.randint(-n, n)))

    def frac(self):
        r = self.r
        return pat(r.randint(-64, 64) / r.choice((2., 4., 8., 3.)))

    def ulps(self, p, k):
        """k steps from a finite pattern, staying finite"""
        q = p + k if p >= 0 else p - k
        m = q & 0x7fffffff
        return q if m < 0x7f800000 and (q >= 0) == (p >= 0) and INT_MIN <= q <= INT_MAX else p

    def near(self, x):
        return self.ulps(pat(x), self.r.choice((0, 0, 0, 1, -1, 2, -2, 3, -3, 7, -8)))

    # ---- vectors -----------------------------------------------------------------------------------------------
    def shape(self, lane, n, prev=()):
        """n lanes, often related to each other and to an earlier argument"""
        r = self.r
        k = r.random()
        same = [p for p in prev if len(p) == n]
        if same and k < .2:
            v = list(r.choice(same))
            if k < .12:
                i = r.randrange(n)
                v[i] = r.choice((lane(), self.ulps(v[i], r.choice((-1, 1))), s32(v[i] ^ 0x80000000)))
            elif k < .16:
                r.shuffle(v)
            return v
        if k < .3 and n > 1:
            x = lane()
            v = [x] * n
            if k < .26:
                v[r.randrange(n)] = lane()
            return v
        return [lane() for _ in range(n)]

    def fvec(self, n, prof, prev=()):
        lane = getattr(self, prof)
        return self.shape(lane, n, prev)

    def good(self, n, prev=(), e=8, zeros=.15):
        """moderate lanes: exactly zero, small integers, simple fractions or a few binary orders of magnitude; sometimes
        a vector whose length is near one"""
        r = self.r
        if n > 1 and r.random() < .08:
            s = 1 + r.choice((-1, 1)) * 10.0 ** -r.uniform(1.5, 6)
            return [pat(x * s) for x in self.real_unit(n)]
        k = r.random()
        if k < .25:
            lane = lambda: self.small(9)
        elif k < .35:
            lane = self.frac
        elif k < .6:
            lane = lambda: pat(r.uniform(-2, 2))
        elif k < .95:
            lane = lambda: self.mod(e)
        else:
            lane = lambda: self.mod(2 * e)
        v = self.shape(lane, n, prev)
        if r.random() < zeros:
            for i in range(n):
                if r.random() < .5:
                    v[i] = pat(0.0) if r.random() < .7 else pat(-0.0)
        if r.random() < .05:
            k = r.randrange(n)
            v = [pat(0.0)] * n
            v[k] = pat(r.choice((1., -1., 2., .5)))
        return v

    def scaled(self, v, e):
        """the lanes times one power of two"""
        s = 2.0 ** self.r.randint(-e, e)
        return [pat(val(x) * s) for x in v]

    def real_unit(self, n):
        r = self.r
        k = r.random()
        v = [r.gauss(0, 1) for _ in range(n)]
        if k < .08:
            v = [0.0] * n
            v[r.randrange(n)] = r.choice((1., -1.))
        elif k < .2:
            i = r.randrange(n)
            v[i] = 0.0 if k < .14 else v[i] * 10.0 ** -r.randint(1, 6)
        elif k < .28:
            v = [r.choice((-1., 1., 0.)) for _ in range(n)]
        elif k < .36:
            v = [x * (10.0 ** -r.randint(3, 7)) for x in v]
            v[r.randrange(n)] = r.choice((-1., 1.))
        elif k < .42:
            a, b = r.sample(range(n), 2) if n > 1 else (0, 0)
            v[a] = v[b] * r.choice((-1, 1))
        l = math.sqrt(sum(x * x for x in v))
        if l == 0:
            return self.real_unit(n)
        return [x / l for x in v]

    def unit(self, n):
        v = [pat(x) for x in self.real_unit(n)]
        if self.r.random() < .1:
            v = [pat(-0.0) if x == 0 and self.r.random() < .5 else x for x in v]
        return v

    def angle(self):
        r = self.r
        k = r.random()
        if k < .3:
            return pat(r.randint(-8, 8) * math.pi / 4)
        if k < .4:
            return pat(r.choice((0., -0.0, 1e-3, -1e-4, 1e-6, math.pi - 1e-3, 3.14159, -3.14159)))
        if k < .45:
            return pat(float(r.randint(-7, 7)))
        if k < .52:                                  # several turns; hardly any turn at all
            return pat(r.uniform(-60, 60) if k < .49 else r.choice((-1, 1)) * 10.0 ** -r.uniform(2, 8))
        return pat(r.uniform(-math.pi * 1.2, math.pi * 1.2))

    # quaternions (x, y, z, w) and rotations in doubles
    def real_quat(self):
        r = self.r
        k = r.random()
        if r.random() < .06:                         # a quarter turn about y, or almost, then turned about z or x
            h = (math.pi / 2 * r.choice((-1, 1)) + r.choice((0., 0., 10.0 ** -r.uniform(2, 8), -10.0 ** -r.uniform(2, 8)))) / 2
            a, c = r.uniform(-math.pi, math.pi) / 2, r.choice((0., r.uniform(-math.pi, math.pi) / 2))
            ham = lambda p, q: [p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1], p[3] * q[1] + p[1] * q[3] + p[2] * q[0] - p[0] * q[2],
                                p[3] * q[2] + p[2] * q[3] + p[0] * q[1] - p[1] * q[0], p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]]
            return ham(ham([0., 0., math.sin(a), math.cos(a)], [0., math.sin(h), 0., math.cos(h)]), [math.sin(c), 0., 0., math.cos(c)])
        if k < .1:
            v = [0., 0., 0., 0.]
            v[r.randrange(4)] = r.choice((1., -1.))
            return v
        if k < .3:
            a = r.choice((0., math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi / 3, math.pi - 1e-3, 1e-3, math.pi * 1.5, 1e-5))
            n = self.real_unit(3)
            s = math.sin(a / 2)
            return [n[0] * s, n[1] * s, n[2] * s, math.cos(a / 2)]
        if k < .4:
            v = [r.choice((-1., 1., 0.)) for _ in range(4)]
            l = math.sqrt(sum(x * x for x in v))
            return [x / l for x in v] if l else self.real_quat()
        return self.real_unit(4)

    def quat(self):
        v = [pat(x) for x in self.real_quat()]
        if self.r.random() < .1:
            v = [pat(-0.0) if x == 0 and self.r.random() < .5 else x for x in v]
        if self.r.random() < .06:                        # what products of unit quaternions leave when they undo each other
            tiny = lambda: self.r.choice((0., 1., -1.)) * 10.0 ** -self.r.uniform(6, 12)
            v = [pat(tiny()), pat(tiny()), pat(tiny()), pat(self.r.choice((1., -1.))) + self.r.choice((-2, -1, 0, 1, 2, 3))]
        return v

    @staticmethod
    def rot(q):
        x, y, z, w = q
        return [1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y),
                2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x),
                2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]

    def affine(self):
        """translation times rotation times scaling, in doubles, column-major 4x4"""
        r = self.r
        R = self.rot(self.real_quat())
        k = r.random()
        if k < .25:
            s = [r.choice((1., 2., .5, -1., -2., 3.)) for _ in range(3)]
        elif k < .45:
            s = [1., 1., 1.]
        else:
            s = [(r.random() + .1) * 2.0 ** r.randint(-4, 4) * (r.choice((-1, 1)) if k < .75 else 1) for _ in range(3)]
        if r.random() < .15:                         # one scale far from the others, or all far from one
            f = 2.0 ** (r.randint(-14, 14) if r.random() < .6 else r.randint(-34, 34))
            s = [x * f for x in s] if r.random() < .5 else [s[0], s[1] * f, s[2]] if r.random() < .5 else [s[0] * f, s[1], s[2] / f]
        t = [r.choice((0., r.uniform(-10, 10), float(r.randint(-5, 5)))) for _ in range(3)]
        if r.random() < .1:
            t = [x * 10.0 ** r.uniform(-4, 5) for x in t]
        m = []
        for j in range(3):
            m += [R[3 * j + i] * s[j] for i in range(3)] + [0.]
        return m + t + [1.]

    # ---- matrices ----------------------------------------------------------------------------------------------
    def matrix(self, o, prev=()):
        m = self.matrix_(o, prev)
        if self.r.random() < .2:                     # far from one in scale
            m = self.scaled(m, 22)
        return m

    def matrix_(self, o, prev):
        r = self.r
        n = o * o
        k = r.random()
        if k < .3:
            return self.shape(lambda: self.small(r.choice((1, 3, 9))), n, prev)
        if k < .4:                                  # permutation, possibly scaled, possibly singular
            m = [0.] * n
            p = list(range(o))
            r.shuffle(p)
            for c in range(o):
                m[c * o + p[c]] = r.choice((1., -1., 2., 3., .5, 0.))
            return [pat(x) for x in m]
        if k < .5:                                  # one element that is not zero
            m = [0.] * n
            m[r.randrange(n)] = float(r.randint(1, 9))
            return [pat(x) for x in m]
        if k < .6:                                  # singular: proportional columns
            m = [float(r.randint(-5, 5)) for _ in range(n)]
            a, b = r.sample(range(o), 2)
            f = r.choice((0., 1., -1., 2., 3.))
            for i in range(o):
                m[b * o + i] = f * m[a * o + i]
            return [pat(x) for x in m]
        if k < .68 and o > 2:                       # affine
            m = [float(r.randint(-5, 5)) if r.random() < .5 else r.uniform(-3, 3) for _ in range(n)]
            for c in range(o - 1):
                m[c * o + o - 1] = 0.
            m[n - 1] = 1.
            return [pat(x) for x in m]
        if k < .76:                                 # diagonal and triangular
            low = r.random() < .5
            diag = r.random() < .4
            return [pat(float(r.randint(-5, 5)) if c == rr or (not diag and (c < rr) == low) else 0.) for c in range(o) for rr in range(o)]
        if k < .8:
            return [pat(1. if c == rr else 0.) for c in range(o) for rr in range(o)]
        if k < .84:                                  # almost singular
            m = [r.uniform(-3, 3) for _ in range(n)]
            a, b = r.sample(range(o), 2)
            f, e = r.choice((1., -1., 2., .5)), 10.0 ** -r.uniform(1, 6)
            for i in range(o):
                m[b * o + i] = f * m[a * o + i] + e * r.gauss(0, 1)
            return [pat(x) for x in m]
        if k < .9 and o > 2:
            R = self.rot(self.real_quat())
            if o == 3:
                return [pat(x) for x in R]
            return [pat(x) for x in R[0:3] + [0.] + R[3:6] + [0.] + R[6:9] + [0.] + [0., 0., 0., 1.]]
        return self.good(n, prev, 5, .1)

    # ---- integers and Booleans ---------------------------------------------------------------------------------
    def ilane(self):
        r = self.r
        k = r.random()
        if k < .45:
            return r.randint(-9, 9)
        if k < .6:
            return r.choice(I_SPECIAL)
        if k < .78:
            return r.randint(-40000, 40000)
        if k < .88:                                  # at and beside the middle of two neighbouring floats
            s = r.randint(1, 7)
            v = ((1 << 23 | r.getrandbits(23)) << s) + (1 << s - 1) + r.choice((-1, 0, 0, 1))
            return v * r.choice((-1, 1))
        if k < .92:
            return r.choice((-1, 1)) * ((1 << r.randint(2, 30)) + r.choice((-1, 0, 1)))
        return s32(r.getrandbits(32))

    def ivec(self, n, prev=(), lane=None):
        r = self.r
        lane = lane or self.ilane
        k = r.random()
        same = [p for p in prev if len(p) == n]
        if same and k < .3:
            v = list(r.choice(same))
            if k < .22:
                i = r.randrange(n)
                v[i] = r.choice((lane(), min(v[i] + 1, INT_MAX), max(v[i] - 1, INT_MIN)))
                if k < .1:
                    j = r.randrange(n)
                    v[j] = r.choice((lane(), min(v[j] + 1, INT_MAX), max(v[j] - 1, INT_MIN)))
            elif k < .27:
                r.shuffle(v)
            return v
        if k < .35:
            return [lane()] * n
        return [lane() for _ in range(n)]

    def bvec(self, n):
        return [self.r.randint(0, 1) for _ in range(n)]

    def generic(self, t, prev=(), prof="bits"):
        kind, n = TYPES[t]
        if kind == "f":
            return self.fvec(n, prof, prev) if prof in ("bits",) else self.good(n, prev)
        if kind == "i":
            return self.ivec(n, prev)
        if kind == "b":
            return self.bvec(n)
        return [s32(self.r.getrandbits(32)) for _ in range(n)]

    # ---- arguments of one call ---------------------------------------------------------------------------------
    def args(self, op):
        """op: Op.  The lanes of every argument."""
        f = getattr(self, "c_" + op.cls, None)
        return f(op) if f else self.plain(op)

    def plain(self, op, prof="bits"):
        a = []
        for t in op.types:
            a.append(self.generic(t, a, prof))
        return a

    def c_f(self, op):
        prof = "bits" if self.r.random() < .75 else "good"
        return self.plain(op, prof)

    c_inc = c_f
    c_c = c_f
    c_al = c_f
    c_alx = c_f

    def int_args(self, types, op):
        """operands of an integer operator, mostly without overflow"""
        r = self.r
        for _ in range(200):
            a = []
            for t in types:
                lane = self.ilane
                if op == "mul" and r.random() < .7:
                    lane = lambda: r.randint(-46000, 46000)
                if op == "shl":
                    lane = lambda: r.choice((r.randint(0, 9), r.randint(0, 65535), r.randint(0, INT_MAX), r.randint(-5, 5)))
                if len(a) == len(types) - 1 and len(types) > 1:
                    if op in ("shl", "shr"):
                        lane = lambda: r.choice((r.randint(0, 31), r.randint(0, 4), 0, 31 if op == "shr" else 1))
                    elif op in ("div", "rem"):
                        lane = lambda: self.ilane() or r.choice((1, -1, 2, 3, -7))
                a.append(self.ivec(TYPES[t][1], a if op not in ("shl", "shr") else (), lane) if TYPES[t][0] == "i" else self.generic(t, a))
            if op in ("div", "rem"):
                x, y = a[0], a[-1]
                if len(a) == 2 and r.random() < .5:      # exact multiples, and their neighbours
                    if r.random() < .7:
                        y = a[1] = [r.randint(1, 130) * r.choice((1, 1, -1)) for _ in y]
                    for i in range(len(x)):
                        d = y[i % len(y)]
                        q = r.choice((1, 1, r.randint(-9, 9), r.randint(-500, 500), r.randint(-INT_MAX, INT_MAX) // (abs(d) or 1)))
                        v = q * d + r.choice((0, 0, 0, 1, -1))
                        if INT_MIN <= v <= INT_MAX:
                            x[i] = v
                    if len(x) == 1 < len(y):
                        y = a[1] = [s32(r.choice((d, x[0], -x[0]))) or 1 for d in y]
                if 0 in y or (INT_MIN in x and -1 in y):
                    continue
            if op in ("shl", "shr") and len(a) > 1 and not all(0 <= y <= 31 for y in a[-1]):
                continue
            return a
        raise AssertionError(op)

    def c_i(self, op):
        return self.int_args(op.types, op.op)

    def c_ic(self, op):
        return self.int_args(op.types, op.op)

    def c_ialx(self, op):
        return self.c_ial(op)

    def c_ial(self, op):
        r = self.r
        k = "xyzw".index(op.par[0])
        while True:
            v = self.ivec(TYPES[op.types[0]][1], (), (lambda: r.randint(0, 99)) if op.op == "shl" else None)
            if op.op in ("shl", "shr"):
                v[k] = r.randint(0, 31)
            if op.op in ("div", "rem") and (v[k] == 0 or (v[k] == -1 and INT_MIN in v)):
                continue
            return v and [v]

    def c_b(self, op):
        return [self.bvec(TYPES[t][1]) for t in op.types]

    def c_k(self, op):
        r = self.r
        a = self.plain(op, "bits" if r.random() < .8 else "good")
        where = places(op)
        for k, n in enumerate(where):
            a[k + 1] = [r.randrange(n)]
        # recognisable lanes most of the time: every lane different
        if r.random() < .6:
            c = r.randint(1, 40)
            for k, t in enumerate(op.types):
                kind, n = TYPES[t]
                if kind == "f":
                    a[k] = [pat(float(c + i)) for i in range(n)]
                    c += n
                elif kind == "i" and not 1 <= k <= len(where):
                    a[k] = [c + i for i in range(n)]
                    c += n
        return a

    def c_swz(self, op):
        a = self.plain(op)
        if self.r.random() < .5:
            for k, t in enumerate(op.types):
                kind, n = TYPES[t]
                if kind in "fi":
                    a[k] = [pat(float(10 * k + i + 1)) if kind == "f" else 10 * k + i + 1 for i in range(n)]
        return a

    # -- common functions
    def round_lane(self):
        r = self.r
        k = r.random()
        if k < .25:
            return self.near(r.randint(-20, 20) + r.choice((0., .5)))
        if k < .4:
            n = r.choice((2**21, 2**22, 2**23, 2**24)) + r.randint(-9, 9)
            return self.near((n + r.choice((0., .5, .25, .75))) * r.choice((-1, 1)))
        if k < .5:
            return self.near(r.choice((-1, 1)) * 2.0 ** r.choice((15, 16, 30, 31, 32, 53, 62, 63, 64, 100)))
        if k < .6:
            return self.near(r.choice((-1, 1)) * r.choice((.5, .49999997, 1.5, 2.5, .99999994, 1e-7, 1e-30, 0., 3.5)))
        if k < .7:
            return self.bits()
        return pat(r.uniform(-1000, 1000) if k < .85 else r.uniform(-3, 3))

    def c_r(self, op):
        r = self.r
        n = TYPES[op.types[0]][1]
        x = self.shape(self.round_lane, n)
        if op.op != "mod":
            return [x]
        n2 = TYPES[op.types[1]][1]
        k = r.random()
        if k < .3:
            x = [self.small(30) for _ in range(n)]
            return [x, [pat(float(r.randint(1, 9) * r.choice((-1, 1)))) for _ in range(n2)]]
        y = self.shape(lambda: self.mod(4), n2)
        if k < .4:                                   # large quotients, tiny and huge arguments, exact multiples
            y = self.shape(lambda: self.mod(r.choice((4, 40))), n2)
            q = [r.choice((float(r.randint(-9, 9)), r.uniform(-2, 2), r.uniform(-1, 1) * 2.0 ** r.randint(0, 30))) for _ in range(n)]
            return [[self.near(val(y[i % n2]) * q[i]) for i in range(n)], y]
        if k < .9:
            x = [pat(r.uniform(-50, 50)) for _ in range(n)]
        return [x, y]

    def c_s(self, op):
        r = self.r
        o = op.op
        ns = [TYPES[t][1] for t in op.types]
        k = r.random()
        if o == "mixb":
            return [self.fvec(ns[0], "bits"), self.fvec(ns[1], "bits"), self.bvec(ns[2])]
        if o == "mix":
            a = self.good(ns[0])
            b = self.good(ns[1], [a])
            if k < .12:
                a, b = self.scaled(a, 50), self.scaled(b, 50)
            t = self.shape(lambda: r.choice((pat(0.), pat(1.), pat(.5), pat(r.random()), pat(r.random()), pat(r.uniform(-3, 3)))), ns[2])
            return [a, b, t]
        if o == "smoothstep":
            a, b, x = [], [], []
            for _ in range(ns[0]):
                e0 = r.choice((0., float(r.randint(-5, 5)), r.uniform(-10, 10)))
                e1 = e0 + r.choice((1., float(r.randint(1, 9)), r.uniform(.01, 10), 2.0 ** r.randint(-5, 8)))
                if r.random() < .06:
                    e0, e1 = e1, e0
                if r.random() < .1:
                    s = 2.0 ** r.randint(-50, 50)
                    e0, e1 = e0 * s, e1 * s
                a.append(pat(e0))
                b.append(pat(e1))
                x.append(r.choice((pat(e0), pat(e1), self.near(e0), self.near(e1), pat(e0 + r.random() * (e1 - e0)), pat((e0 + e1) / 2),
                                   pat(e0 + r.random() * (e1 - e0)), pat(e0 - r.random()), pat(e1 + r.random() * 5))))
            if r.random() < .2 and ns[0] > 1:
                a, b = [a[0]] * ns[0], [b[0]] * ns[0]
                x = [pat(val(a[0]) + r.random() * (val(b[0]) - val(a[0]))) for _ in range(ns[0])]
            return [a, b, x]
        if o == "fma" and k < .3:                    # the exact sum barely misses the middle between two floats
            lanes = [self.fma_tie() for _ in range(ns[0])]
            return [list(v) for v in zip(*lanes)]
        if o == "fma" and k < .7:
            a = self.fvec(ns[0], "mod")
            b = self.fvec(ns[1], "mod", [a])
            c = [self.ulps(pat(-val(x) * val(y)), r.choice((0, 0, 1, -1, 5))) if r.random() < .6 else self.mod(10) for x, y in zip(a, b)]
            return [a, b, c]
        prof = "bits" if k < .6 else "good"
        a = self.plain(op, prof)
        if o == "clamp" and r.random() < .6:        # mostly ordered bounds
            for i in range(ns[0]):
                lo, hi = val(a[1][i]), val(a[2][i])
                if lo > hi:
                    a[1][i], a[2][i] = a[2][i], a[1][i]
        return a

    def fma_tie(self):
        r = self.r
        s = 2.0 ** r.randint(-20, 20)
        if r.random() < .5:                          # the product is a middle, the addend a trifle
            while True:
                a, b = r.getrandbits(13) | 4097, r.getrandbits(r.choice((12, 13))) | 2049
                if (a * b).bit_length() == 25:
                    break
            p = float(a * b) * s
            c = r.choice((-1, 1)) * p * 2.0 ** -r.randint(50, 90)
            return pat(float(a) * r.choice((-1, 1))), pat(float(b) * s), pat(c)
        x = 2.0 ** -r.randint(14, 23)                # the product is nearly half an ulp of the addend
        a, b = r.choice(((1 + x, 1 - x), (1 + x, 1 / (1 + x)), (1 - x, 1 / (1 - x)), (1 + x, 1 + x)))
        c = (r.getrandbits(23) | 0x800000) * s
        return pat(a * r.choice((-1, 1)) * s), pat(b / 2), pat(c * r.choice((-1, 1)))

    def c_is(self, op):
        a = self.plain(op)
        if op.op == "clamp" and self.r.random() < .7:
            for i in range(len(a[0])):
                if a[1][i] > a[2][i]:
                    a[1][i], a[2][i] = a[2][i], a[1][i]
        return a

    def c_ir(self, op):
        return self.plain(op)

    def c_ired(self, op):
        r = self.r
        n = TYPES[op.types[0]][1]
        k = r.random()
        if op.op == "compMul" and k < .8:
            return [self.ivec(n, (), lambda: r.randint(-200, 200) if k < .4 else r.randint(-9, 9))]
        return [self.ivec(n)]

    def c_rel(self, op):
        r = self.r
        if op.op in ("isnan", "isinf"):
            edge = [s32(u) for u in (0x7f7fffff, 0x7f800000, 0x7f800001, 0x7fbfffff, 0x7fc00000, 0x7fffffff, 0xff7fffff, 0xff800000,
                                     0xff800001, 0xffc00000, 0xffffffff, 0, 0x80000000, 0x3f800000)]
            return [[r.choice(edge) if r.random() < .6 else self.bits() for _ in range(TYPES[op.types[0]][1])]]
        return self.plain(op)

    def c_red(self, op):
        r = self.r
        n = TYPES[op.types[0]][1]
        k = r.random()
        if k < .3:
            return [self.fvec(n, "bits")]
        if op.op in ("compMin", "compMax") and k < .5:
            return [self.shape(lambda: self.small(3), n)]
        v = self.good(n)
        if k > .85:                                  # infinities, zeros and NaN among moderate components
            for i in r.sample(range(n), r.choice((1, 1, 2))):
                v[i] = r.choice((pat(math.inf), pat(-math.inf), pat(0.), pat(-0.), F_SPECIAL[11], pat(-math.inf)))
        return [v]

    # -- exponential and trigonometric
    def e_edge(self, o):
        """the ends of the range: results that leave the normal range or the format, arguments outside the domain"""
        r = self.r
        k = r.random()
        if k < .12:
            return r.choice((pat(math.inf), pat(-math.inf), F_SPECIAL[11], pat(0.), pat(-0.), 1, s32(0x80000001)))
        if k < .3:
            return s32(r.getrandbits(32))
        if k < .36:
            return self.near(r.choice((1., -1.)) * 2.0 ** r.randint(-149, 127))
        if o == "exp":
            return self.near(r.choice((r.uniform(-104, -87), r.uniform(87, 90), -103.97208, 88.722839, -87.336545, r.uniform(-1000, 1000))))
        if o == "exp2":
            return self.near(r.choice((r.uniform(-151, -125), r.uniform(126, 130), 128., -150., -149., -126., float(r.randint(-150, -126)), r.uniform(-1000, 1000))))
        if o in ("sinh", "cosh"):
            return self.near(r.choice((-1, 1)) * r.choice((r.uniform(85, 91), 88.722839, 89.415985, r.uniform(87, 89.5), r.uniform(0, 200))))
        if o in ("sin", "cos", "tan"):
            if r.random() < .3:                      # close to a multiple of a quarter turn, far out
                return self.near(r.randint(1, 2 ** r.randint(8, 60)) * math.pi / 2 * r.choice((-1, 1)))
            return pat(r.choice((-1, 1)) * r.random() * 2.0 ** r.randint(10, 127))
        if o in ("asin", "acos", "atanh"):
            return self.near(r.choice((1., -1.)) * r.choice((1., 1., 1 - 2.0 ** -r.randint(2, 24), 1 + 2.0 ** -r.randint(2, 23), 2.0 ** -r.randint(1, 40), r.uniform(1, 50))))
        if o == "acosh":
            return self.near(r.choice((1., 1 + 2.0 ** -r.randint(1, 23), 2.0 ** r.randint(1, 127), 1 - 2.0 ** -r.randint(1, 24), -r.uniform(0, 9), r.uniform(1, 1.2))))
        if o in ("tanh", "atan", "asinh", "degrees", "radians"):
            return pat(r.choice((-1, 1)) * (1 + r.random()) * 2.0 ** r.randint(-149, 127))
        if o in ("log", "log2"):
            return r.choice((self.near(1.0), self.near(1 + r.choice((-1, 1)) * 2.0 ** -r.randint(2, 20)), r.randint(1, 0x7fffff), r.randint(0x7f000000, 0x7f7fffff), pat(-r.uniform(0, 9))))
        return r.choice((r.randint(1, 0x7fffff), r.randint(0x7f000000, 0x7f7fffff), pat(-r.uniform(0, 9))))

    def e_lane(self, o):
        r = self.r
        if r.random() < .2:
            return self.e_edge(o)
        k = r.random()
        if o == "exp":
            return pat(r.uniform(-87, 88) if k < .4 else r.uniform(-3, 3) if k < .8 else r.randint(-80, 80) if k < .9 else r.choice((0., 1., -1., 1e-5, -1e-20)))
        if o == "exp2":
            return pat(r.uniform(-125.9, 127.9) if k < .4 else r.uniform(-3, 3) if k < .7 else float(r.randint(-126, 127)) if k < .9 else r.choice((0., .5, -1e-9)))
        if o in ("log", "log2"):
            return r.choice((self.near(1.0), self.near(2.0 ** r.randint(-120, 120)))) if k < .3 else \
                r.choice((s32(r.getrandbits(31) % 0x7f800000) or 1, 1, 0x00400000)) if k < .5 else pat(r.uniform(.01, 20)) if k < .9 else pat(float(r.randint(1, 1000)))
        if o in ("sqrt", "inversesqrt"):
            return (s32(r.getrandbits(31) % 0x7f800000) or 1) if k < .3 else pat(float(r.randint(0 if o == "sqrt" else 1, 50) ** r.choice((1, 2)))) if k < .6 else pat(r.uniform(.001, 100))
        if o == "cbrt":
            return s32(r.getrandbits(32) & 0xff7fffff) if k < .3 else pat(float(r.randint(-12, 12) ** r.choice((1, 3)))) if k < .6 else pat(r.uniform(-100, 100))
        if o in ("sin", "cos", "tan"):
            return self.angle() if k < .5 else pat(r.uniform(-7, 7)) if k < .8 else pat(r.uniform(-2000, 2000)) if k < .9 else self.near(r.randint(-12, 12) * math.pi / 2)
        if o in ("asin", "acos", "atanh"):
            lim = .9999999 if o == "atanh" else 1.
            return pat(r.uniform(-lim, lim)) if k < .6 else pat(r.choice((0., .5, -.5, lim, -lim, 1e-4, -.999, .70710678, -.70710678))) if k < .9 else pat(r.choice((-1, 1)) * 10.0 ** -r.uniform(1, 12))
        if o == "atan":
            return self.good(1, (), 10)[0]
        if o in ("sinh", "cosh"):
            return pat(r.uniform(-5, 5) if k < .6 else r.uniform(-87, 87)) if k < .9 else pat(r.choice((0., 1e-3, -1e-6, 1., -1.)))
        if o == "tanh":
            return pat(r.uniform(-5, 5)) if k < .8 else self.good(1)[0]
        if o == "asinh":
            return pat(r.uniform(-10, 10)) if k < .6 else self.good(1, (), 12)[0]
        if o == "acosh":
            return pat(1 + r.uniform(0, 10)) if k < .7 else pat(1 + 2.0 ** r.randint(-20, 20))
        return self.good(1, (), 10)[0]               # radians, degrees

    def c_e(self, op):
        r = self.r
        n = TYPES[op.types[0]][1]
        if op.op == "pow":
            b, e = [], []
            m = TYPES[op.types[1]][1]
            for i in range(n):
                k = r.random()
                if k < .2:
                    b.append(pat(float(r.randint(-5, 9))))
                    e.append(pat(float(r.randint(0, 6))))
                elif k < .8:
                    b.append(pat(r.uniform(.01, 20)))
                    e.append(pat(r.uniform(-6, 6)))
                else:
                    b.append(pat(2.0 ** r.randint(-9, 9)))
                    e.append(pat(r.randint(-12, 12) / 2.))
            if m == 1:
                e = [r.choice(e)]
                if val(e[0]) != int(val(e[0])):
                    b = [x & 0x7fffffff for x in b]
            for i in range(n):
                if val(b[i]) < 0 and (val(e[i % m]) != int(val(e[i % m]))) and r.random() < .8:
                    b[i] &= 0x7fffffff
            if r.random() < .3:                      # far results, extreme bases and exponents, special values
                for i in range(n):
                    k = r.random()
                    if k < .4:
                        b[i] = r.choice((self.near(2.0 ** r.uniform(-140, 127)), pat(r.uniform(.01, 50)), pat(-float(r.randint(1, 40)))))
                        x = abs(val(b[i]))
                        t = r.choice((r.uniform(-155, -120), r.uniform(120, 130), r.uniform(-150, 128), r.uniform(-200, 200)))
                        y = t / (math.log2(x) or 1)
                        e[i % m] = pat(float(round(y)) if b[i] < 0 or r.random() < .3 else y)
                    elif k < .55:
                        b[i] = self.near(r.choice((1., 1., -1., 2., .5)))
                        e[i % m] = pat(r.choice((-1, 1)) * (float(r.randint(1, 9)) if r.random() < .3 else 2.0 ** r.uniform(0, 32)))
                    elif k < .65:
                        b[i] = pat(r.choice((-1, 1)) * 2.0 ** r.uniform(-5, 5))
                        e[i % m] = pat(r.choice((-1, 1)) * float(r.randint(0, 40)))
                    elif k < .85:
                        e[i % m] = self.bits()
                    elif k < .93:                    # zeros and infinities under integer, half and other exponents
                        b[i] = r.choice((0, -2147483648, 2139095040, -8388608))
                        e[i % m] = pat(r.choice((-1, 1)) * r.choice((.5, 1., 2., 3., 1.5, 1 / 3., float(r.randint(1, 60)), 2.0 ** r.randint(22, 26) + 1)))
                    else:
                        b[i] = self.bits()
            return [b, e]
        return [self.shape(lambda: self.e_lane(op.op), n)]

    def c_t(self, op):
        r = self.r
        n = TYPES[op.types[0]][1]
        if op.op == "atan2":
            y, x = [], []
            for _ in range(n):
                k = r.random()
                if k < .3:
                    a, b = r.choice((-2., -1., 1., 3., 0., -0., 0., -0., math.inf, -math.inf)), r.choice((-2., -1., 1., 3., 0., -0., math.inf, -math.inf))
                elif k < .7:
                    a, b = r.gauss(0, 1), r.gauss(0, 1)
                elif k < .8:
                    y.append(self.bits())
                    x.append(r.choice((self.bits(), self.bits(), y[-1], s32(y[-1] ^ 0x80000000))))
                    continue
                else:
                    a, b = val(self.mod(6)), val(self.mod(6))
                y.append(pat(a))
                x.append(pat(b))
            return [y, x]
        return [self.shape(lambda: self.e_lane(op.op), n)]

    # -- geometry
    def c_g(self, op):
        r = self.r
        o = op.op
        ts = op.types
        n = TYPES[ts[0]][1]
        if o in ("dot", "length", "length2", "distance", "distance2", "normalize", "cross"):
            k = r.random()
            a = self.good(n)
            if k < .2:
                a = self.scaled(a, 20 if k < .1 else 62)
            if k > .85:
                a = self.shape(lambda: self.small(6), n)
            out = [a]
            for t in ts[1:]:
                b = self.good(n, out)
                if k < .2:
                    b = self.scaled(b, 20) if k < .05 else [pat(val(x) * r.uniform(.5, 2)) for x in a] if k < .1 else self.scaled(b, 60)
                if .2 < k < .26:                     # nearly parallel
                    f = r.choice((1., -1., .5, 3.))
                    b = [self.near(f * val(x)) if abs(val(x)) < 1e30 else x for x in a]
                if o in ("distance", "distance2") and r.random() < .2:
                    b = [self.ulps(x, r.choice((0, 1, -2, 100, 5000))) for x in a]
                out.append(b)
            return out
        if o == "reflect":
            a = self.good(n)
            return [self.scaled(a, 50) if r.random() < .15 else a, self.unit(n) if r.random() < .7 else self.good(n)]
        if o == "faceforward":
            k = r.random()
            if k < .08:
                return [self.good(n), self.scaled(self.good(n), 50), self.scaled(self.unit(n), 12)]
            if k < .4:
                return [self.good(n), self.shape(lambda: self.small(3), n), self.shape(lambda: self.small(3), n)]
            if k < .5:
                z = [pat(0.0)] * n
                return [self.good(n), z, self.good(n)] if k < .45 else [self.good(n), self.good(n), z]
            return [self.good(n), self.unit(n), self.unit(n)] if k < .8 else [self.good(n), self.good(n), self.good(n)]
        if o == "refract":
            k = r.random()
            if k < .3:
                return [self.shape(lambda: self.small(2), n), self.shape(lambda: self.small(1), n), [pat(r.choice((0., 1., 2., 1., 3., -1.)))]]
            I, N = self.real_unit(n), self.real_unit(n)
            eta = r.choice((1.0, r.uniform(.3, 3), 1.33, 1 / 1.5, 1.5))
            d = sum(x * y for x, y in zip(I, N))
            if k < .6 and abs(d) < .999:                 # close to the critical angle, on either side
                crit = 1 / math.sqrt(1 - d * d)
                eta = crit * (1 + r.choice((-1, 1)) * 10.0 ** -r.uniform(1, 5))
            return [[pat(x) for x in I], [pat(x) for x in N], [pat(eta)]]
        if o == "orthogonal":
            v = self.nonzero(self.good(3) if r.random() < .5 else self.unit(3))
            return [self.scaled(v, 20) if r.random() < .2 else v]
        if o in ("orthogonal_branchless", "encode_octahedral", "octround"):
            k = r.random()
            if k < .2:          # on and around the fold and the octant boundaries
                a = r.uniform(0, 2 * math.pi) if k < .1 else r.randint(0, 7) * math.pi / 4
                z = r.choice((0., -0.0, 1e-7, -1e-7, 1e-3, -1e-3, -.5, -.99, -.999999))
                s = math.sqrt(1 - z * z)
                v = [math.cos(a) * s, math.sin(a) * s, z]
                if r.random() < .4:
                    i = r.randrange(3)                   # the whole great circle in a coordinate plane
                    b = r.uniform(0, 2 * math.pi)
                    v = [math.cos(b), math.sin(b)]
                    v.insert(i, 0.)
                elif k > .1:
                    v = [0. if abs(x) < 1e-9 else x for x in v[:2]] + [z]
                return [[pat(x) for x in v]]
            return [self.unit(3)]
        if o == "decode_octahedral":
            k = r.random()
            if k < .3:
                return [[pat(r.choice((0., 1., -1., .5, -.5, -0.0, .25))) for _ in range(2)]]
            if k < .4:
                x = r.uniform(0, 1)
                return [[pat(x * r.choice((-1, 1))), pat((1 - x) * r.choice((-1, 1)))]]
            return [[pat(r.uniform(-1, 1)) for _ in range(2)]]
        raise AssertionError(o)

    def nonzero(self, v):
        while all(x & 0x7fffffff == 0 for x in v):
            v = self.good(len(v))
        return v

    def c_m(self, op):
        out = []
        for t in op.types:
            if t[0] == "m":
                out.append(self.matrix(int(t[1]), out))
            else:
                out.append(self.good(TYPES[t][1], (), 5))
        return out

    # -- transforms
    def c_x(self, op):
        r = self.r
        o = op.op
        if o in ("translate", "scale", "rotate"):
            m = self.matrix(4)
            v = self.good(3, (), 4)
            if r.random() < .15:
                v = self.scaled(v, 20)
            if o == "rotate":
                ax = self.unit(3) if r.random() < .5 else self.nonzero(self.good(3, (), 3))
                return [m, [self.angle()], self.scaled(ax, 20) if r.random() < .2 else ax]
            return [m, v]
        if o.startswith("lookAt"):
            k = r.random()
            if k < .3:
                e = [float(r.randint(-5, 5)) for _ in range(3)]
                d = [0., 0., 0.]
                d[r.randrange(3)] = float(r.choice((-1, 1)) * r.randint(1, 4))
                c = [x + y for x, y in zip(e, d)]
                u = [0., 0., 0.]
                u[r.choice([i for i in range(3) if d[i] == 0])] = r.choice((1., -1., 2.))
            else:
                e = [r.uniform(-10, 10) for _ in range(3)]
                d = self.real_unit(3)
                l = r.uniform(.5, 20)
                c = [x + l * y for x, y in zip(e, d)]
                u = self.real_unit(3) if k < .8 else [0., 1., 0.]
                if k > .9:                           # far away, or a target far off or close by
                    s = 10.0 ** r.uniform(-3, 4)
                    l *= 10.0 ** r.uniform(-3, 3)
                    e = [x * s for x in e]
                    c = [x + l * y for x, y in zip(e, d)]
                if .3 < k < .36:                     # up nearly along the view direction
                    t = 10.0 ** -r.uniform(.5, 4)
                    f = r.choice((-1, 1))
                    u = [f * x + t * y for x, y in zip(d, u)]
                if r.random() < .15:
                    s = 10.0 ** r.uniform(-4, 4)
                    u = [x * s for x in u]
            return [[pat(x) for x in v] for v in (e, c, u)]
        if o.startswith("ortho"):
            k = r.random()
            l = r.choice((-1., 0., r.uniform(-20, 20), float(r.randint(-9, 9))))
            b = r.choice((-1., 0., r.uniform(-20, 20), float(r.randint(-9, 9))))
            n = r.choice((0., -1., .1, 1., r.uniform(-5, 20)))
            w, h, d = [r.choice((1., 2., float(r.randint(1, 30)), r.uniform(.5, 40))) for _ in range(3)]
            if k < .1:
                w = -w
            elif k < .2:                             # any orientation of the axes
                w, h, d = w * r.choice((-1, 1)), h * r.choice((-1, 1)), d * r.choice((-1, 1))
            elif k < .35:                            # very large and very small boxes, close and distant
                w, h, d = [x * 10.0 ** r.uniform(-3, 5) for x in (w, h, d)]
                l, b, n = [x * 10.0 ** r.uniform(-3, 3) for x in (l, b, n)]
            a = [l, l + w, b, b + h, n, n + d]
            return [[pat(x)] for x in a[:len(op.types)]]
        if o.startswith("perspective"):
            f = r.choice((math.pi / 2, math.pi / 3, r.uniform(.2, 2.8)))
            asp = r.choice((1., 2., 16 / 9., .5, r.uniform(.3, 3)))
            n = r.choice((1., .1, .01, r.uniform(.05, 5)))
            fa = n + r.choice((1., 9., 99., 999., r.uniform(.5, 500)))
            k = r.random()
            if k < .1:
                f = r.choice((10.0 ** -r.uniform(1, 4), math.pi - 10.0 ** -r.uniform(.5, 2)))
            elif k < .2:
                n = 10.0 ** r.uniform(-5, 3)
                fa = n * (1 + 10.0 ** r.uniform(-2, 7))
            elif k < .28:
                asp = 10.0 ** r.uniform(-3, 3)
            elif k < .32:
                n, fa = fa, n
            return [[pat(f)], [pat(asp)], [pat(n)], [pat(fa)]]
        if o == "decompose":
            return [[pat(x) for x in self.affine()], self.good(3), self.good(4), self.good(3)]
        raise AssertionError(o)

    # -- quaternions
    def c_q(self, op):
        r = self.r
        o = op.op
        k = r.random()
        def anyq():
            q = self.quat() if r.random() < .5 else self.shape(lambda: self.small(5), 4) if r.random() < .5 else self.good(4, (), 4)
            return self.scaled(q, 22) if r.random() < .12 else q
        if o == "mul":
            return [anyq(), anyq()]
        if o in ("conjugate",):
            return [self.fvec(4, "bits")]
        if o == "inverse":
            return [self.nonzero(anyq())]
        if o == "qv":
            v = self.good(3, (), 4)
            return [self.quat(), self.scaled(v, 22) if k < .12 else v]
        if o == "vq":
            v = self.good(3, (), 4)
            return [self.scaled(v, 22) if k < .12 else v, self.quat()]
        if o in ("lerp", "nlerp", "slerp"):
            x = self.real_quat()
            if k < .15:
                y = list(x)
            elif k < .25:
                y = [-c for c in x]
            elif k < .45:
                s = 10.0 ** -r.uniform(1, 7) * r.choice((1, 1, 1))
                y = [c + s * r.gauss(0, 1) for c in x]
                if r.random() < .3:
                    y = [-c for c in y]
            elif k < .6:        # perpendicular, or almost
                y = self.real_quat()
                d = sum(a * b for a, b in zip(x, y))
                y = [b - d * a for a, b in zip(x, y)]
                if sum(b * b for b in y) < 1e-3:
                    y = [x[1], -x[0], x[3], -x[2]]
                if r.random() < .5:
                    e = r.choice((-1, 1)) * 10.0 ** -r.uniform(1, 4)
                    l = math.sqrt(sum(b * b for b in y))
                    y = [b / l + e * a for a, b in zip(x, y)]
            else:
                y = self.real_quat()
            l = math.sqrt(sum(b * b for b in y))
            y = [b / l for b in y]
            t = r.choice((0., 1., .5, .25, r.random(), r.random(), r.random(), 10.0 ** -r.uniform(1, 8), 1 - 10.0 ** -r.uniform(1, 7)))
            xs, ys = [pat(c) for c in x], [pat(c) for c in y]
            if k < .1:
                ys = list(xs)
            if o == "lerp" and r.random() < .3:
                xs, ys = self.good(4), self.good(4)
            t = min(max(t, 0.), 1.)
            return [xs, ys, [pat(t)]]
        if o == "rotate":
            return [self.quat() if k < .8 else anyq(), [self.angle()], self.unit(3) if r.random() < .6 else self.nonzero(self.good(3, (), 3))]
        if o == "angleAxis":
            return [[self.angle()], self.unit(3) if k < .8 else self.good(3)]
        if o in ("angle", "axis", "eulerAngles", "pitch", "yaw", "roll", "mat3_cast", "mat4_cast", "castround", "castround4"):
            return [self.quat()]
        if o == "quat_cast":
            R = self.rot(self.real_quat())
            if op.types[0] == "m3":
                return [[pat(x) for x in R]]
            t = [r.choice((0., r.uniform(-5, 5))) for _ in range(3)]
            return [[pat(x) for x in R[0:3] + [0.] + R[3:6] + [0.] + R[6:9] + [0.] + t + [1.]]]
        if o in ("lookRH", "lookLH"):
            d = self.real_unit(3)
            u = self.real_unit(3)
            if k < .4:
                u = [0., 1., 0.]
            elif k < .6:
                i = r.randrange(3)
                d = [0., 0., 0.]
                d[i] = r.choice((-1., 1.))
                u = [0., 0., 0.]
                u[(i + r.choice((1, 2))) % 3] = r.choice((-1., 1., 2.))
            elif k < .7:
                u = [x * r.uniform(.5, 3) for x in u]
            elif k < .78:                            # up nearly along the direction, of any length
                t, s = 10.0 ** -r.uniform(.5, 2.3), 10.0 ** r.uniform(-4, 4)
                u = [s * (x + t * y) for x, y in zip(d, u)]
            return [[pat(x) for x in d], [pat(x) for x in u]]
        if o == "fromto":
            u = self.real_unit(3)
            if k < .12:
                v = list(u)
            elif k < .3:
                v = [-c for c in u]
            elif k < .45:
                e = 10.0 ** -r.uniform(1, 7)
                v = [-c + e * r.gauss(0, 1) for c in u]
            else:
                v = self.real_unit(3)
            if r.random() < .3:
                s = r.uniform(.3, 4)
                u = [c * s for c in u]
            if r.random() < .3:
                s = r.uniform(.3, 4)
                v = [c * s for c in v]
            if r.random() < .1:
                s = 10.0 ** r.uniform(-6, 6)
                u, v = [c * s for c in u], [c / s for c in v]
            return [[pat(c) for c in u], [pat(c) for c in v]]
        if o == "fromeuler":
            return [[self.angle() for _ in range(3)]]
        raise AssertionError(o)

    # -- colours
    def colour(self, t, exact=False):
        r = self.r
        k = r.random()
        if k < .5:
            return pat(r.random())
        if k < .65:
            return self.ulps(pat(t), r.choice((0, 1, -1, 8, -8, 100, -100, 5000, -5000)))
        if k < .8:
            return pat(r.choice((0., 1., .5, .002, .25, .04, .003, .003131, 1 / 255., 10 / 255., 11 / 255., 128 / 255., -0.0)))
        if k < .9 or exact:
            return pat(10.0 ** -r.uniform(0, 6))
        return pat(r.uniform(-1, 3))

    def c_col(self, op):
        r = self.r
        o = op.op
        n = TYPES[op.types[0]][1]
        t = .04045 if "Linear" in o or o == "round2" else .0031308
        a = self.shape(lambda: self.colour(t, o in ("round", "round2", "toSRGB")), 3)
        if o in ("toLinear", "toLinearg") and r.random() < .8:
            a = [x & 0x7fffffff for x in a]
        if n == 4:
            a.append(r.choice((self.bits(), pat(r.random()), pat(r.uniform(-2, 3)), self.colour(t))))
        out = [a]
        if len(op.types) > 1:
            out.append([pat(r.choice((2.4, 2.2, 1., 1.8, r.uniform(.5, 4), 10.0 ** r.uniform(-1, 1))))])
        return out


class Op:
    def __init__(self, line):
        w = line.split()
        self.key, self.cls, self.op = w[0], w[1], w[2]
        self.par = [] if w[3] == "-" else list(w[3])
        i = w.index(">")
        raw = w[4:i]
        self.types = [t.lstrip("!") for t in raw]
        self.inout = [t.startswith("!") for t in raw]
        self.ret = None if w[i + 1] == "-" else w[i + 1]


def script(sessions):
    """sessions: list of (name, register types, steps); step: ('L', id, lanes) or ('O', key, ids)"""
    out = []
    for name, types, steps in sessions:
        out.append("S %s %d %s" % (name, len(types), " ".join(types)))
        for s in steps:
            if s[0] == "L":
                out.append("L %d %s" % (s[1], " ".join(map(str, s[2]))))
            else:
                out.append("O %s %s" % (s[1], " ".join(map(str, s[2]))))
    return "\n".join(out) + "\n"


def single(op, args, extra=(), share=None):
    """one call on fresh registers; extra registers stand by and must not change.  With share, operands of one type
    may be one register"""
    types = list(op.types) + list(t for t, _ in extra)
    steps = [("L", k + 1, v) for k, v in enumerate(args)] + [("L", len(args) + k + 1, v) for k, (_, v) in enumerate(extra)]
    ids = list(range(1, len(args) + 1))
    if share and op.cls not in ("i", "ic", "k", "x") and sum(op.inout) < 2:
        k = share.randrange(1, len(ids))
        j = share.randrange(k)
        if op.types[k] == op.types[j] and (op.op not in ("div", "mul", "mdivm", "lerp", "nlerp", "slerp", "mix", "smoothstep", "clamp") or op.cls in ("f", "m")):
            ids[k] = ids[j]
    if op.ret:
        types.append(op.ret)
        ids.append(len(types))
    steps.append(("O", op.key, ids))
    return (op.key, types, steps)


def groups_of(o, g, n):
    """n argument lists that share much: the same but for one argument, or for one lane or its sign"""
    base = g.args(o)
    out = [base]
    for _ in range(200):
        if len(out) >= n or not o.types:
            break
        fresh = g.args(o)
        if g.r.random() < .65 and len(o.types) > 1 and o.cls not in ("i", "ic", "k", "e", "t"):
            k = g.r.randrange(len(o.types))
            fresh = [fresh[j] if j == k else base[j] for j in range(len(base))]
        out.append(fresh)
        if g.r.random() < .3:
            base = fresh
    return out


def lane_family(o, g, n):
    """one argument list and what differs from it in a single lane, a lane after the other"""
    base = g.args(o)
    lanes = [(k, i) for k, a in enumerate(base) for i in range(len(a))]
    g.r.shuffle(lanes)
    out = [base]
    for k, i in lanes[:n - 1]:
        args = [list(a) for a in base]
        kind, x = TYPES[o.types[k]][0], base[k][i]
        if kind == "f":
            y = pat(val(x) * g.r.choice((.5, -1, 1.25, .99)))
            args[k][i] = g.r.choice((y if y != x else g.mod(3), g.ulps(x, g.r.choice((1, -1, 4096))), g.mod(3), 0))
        elif kind == "i":
            args[k][i] = g.r.choice((s32(x ^ 1), s32(x + 1), g.ilane()))
        else:
            args[k][i] = 1 - x
        out.append(args)
    return out


def sequence(g, o, others):
    """calls one after another whose arguments share much, now and then with a call of another operation between"""
    lists = groups_of(o, g, 3)
    if g.r.random() < .5:
        lists.append(lists[0])
    types, steps = list(o.types), []
    if o.ret:
        types.append(o.ret)
    n = len(types)
    for k, args in enumerate(lists):
        if k and g.r.random() < .3:
            b = g.r.choice(others)
            base = len(types)
            types += list(b.types) + ([b.ret] if b.ret else [])
            steps += [("L", base + j + 1, v) for j, v in enumerate(g.args(b))]
            steps.append(("O", b.key, list(range(base + 1, len(types) + 1))))
        steps += [("L", j + 1, v) for j, v in enumerate(args)]
        steps.append(("O", o.key, list(range(1, n + 1))))
    return (o.key, types, steps)


def history(g, ops, bank, length, load):
    """a random walk of operations over a bank of registers, with operands drawn from whatever earlier steps left
    there, an operand often being the target itself"""
    r = g.r
    by = {}
    for k, t in enumerate(bank):
        by.setdefault(t, []).append(k + 1)
    steps = [("L", k + 1, load(t)) for k, t in enumerate(bank)]
    usable = [o for o in ops if all(t in by for t in o.types) and (not o.ret or o.ret in by)]
    n = 0
    while n < length and usable:
        o = r.choice(usable)
        ids = []
        for k, t in enumerate(o.types):
            same = [i for i in ids if i in by[t]]
            ids.append(r.choice(same) if same and r.random() < .35 else r.choice(by[t]))
        # two outputs never share a register
        outs = [ids[k] for k in range(len(ids)) if o.inout[k]]
        if len(set(outs)) < len(outs):
            continue
        if o.ret:
            free = [i for i in by[o.ret] if i not in outs]
            if not free:
                continue
        steps += fix(g, o, ids)
        if o.ret:
            ids.append(r.choice(free))
        steps.append(("O", o.key, ids))
        n += 1
    return ("history", list(bank), steps)


def fix(g, o, ids):
    """loads that keep the next step of a history within the library's preconditions"""
    r = g.r
    width = TYPES[o.types[0]][1] if o.types else 0
    if o.cls in ("i", "ic"):
        last = ids[-1]
        n = TYPES[o.types[-1]][1]
        if o.op in ("div", "rem"):
            return [("L", last, [r.choice((1, 2, 3, -2, -3, 7, 10)) for _ in range(n)])]
        if o.op in ("shl", "shr"):
            first = [("L", ids[0], [r.randint(0, 99) for _ in range(TYPES[o.types[0]][1])])] if o.op == "shl" else []
            return first + [("L", last, [r.randint(0, 9) for _ in range(n)])]
        if o.op in ("mul", "mulc"):
            return [("L", i, [r.randint(-999, 999) for _ in range(TYPES[t][1])]) for i, t in set(zip(ids, o.types))]
    if o.cls in ("ial", "ialx") and o.op in ("div", "rem", "shl", "shr", "mul"):
        return [("L", ids[0], [r.randint(1, 20) for _ in range(width)])]
    if o.cls == "k":
        return [("L", i, [r.randrange(n)]) for i, n in {i: n for i, n in zip(ids[1:], places(o))}.items()]
    return []
