"""Which operations of the library each property speaks about, and how they are exercised."""
import itertools

import gen

FB = ["v2", "v2", "v3", "v3", "v4", "v4", "f", "f"]
IB = ["i2", "i2", "i3", "i3", "i4", "i4", "i", "i"]
BB = ["b2", "b2", "b3", "b3", "b4", "b4", "b", "b"]
MB = ["m2", "m2", "m3", "m3", "m4", "m4", "v2", "v3", "v4", "f"]
QB = ["q", "q", "q", "v3", "f"]


class P:
    """units: harness sources; sel: the property's operations; quick: sessions per check; banks: registers of its histories"""

    def __init__(self, units, sel, banks=(), quick=40000, hist=600, length=24, weight=None, extra=None, prof="bits", guided=3000000):
        self.units, self.sel, self.banks, self.quick, self.hist, self.length = units, sel, banks, quick, hist, length
        self.weight, self.extra, self.prof, self.guided = weight, extra, prof, guided


def cls(*names):
    s = set(names)
    return lambda o: o.cls in s or (o.cls + "." + o.op) in s


def ops_of(c, names):
    s = set(names.split())
    return lambda o: o.cls == c and o.op in s


def both(*f):
    return lambda o: any(g(o) for g in f)


# ---- enumerations: every argument of a finite domain -------------------------------------------------------------
def all_bools(ops, g):
    for o in ops:
        if o.cls == "b" and all(gen.TYPES[t][0] == "b" for t in o.types):
            w = [gen.TYPES[t][1] for t in o.types]
            for bits in itertools.product((0, 1), repeat=sum(w)):
                args, k = [], 0
                for n in w:
                    args.append(list(bits[k:k + n]))
                    k += n
                yield gen.single(o, args)
        elif o.cls == "k" and o.types[0][0] == "b" and o.op in ("index", "indexw", "setidx", "get", "set"):
            n = gen.TYPES[o.types[0]][1]
            for bits in itertools.product((0, 1), repeat=n):
                rest = []
                for t in o.types[1:]:
                    rest.append([[i] for i in range(n)] if t == "i" else [[0], [1]])
                for tail in itertools.product(*rest):
                    yield gen.single(o, [list(bits)] + [list(t) for t in tail])
        elif o.cls == "al":
            for bits in itertools.product((0, 1), repeat=gen.TYPES[o.types[0]][1]):
                yield gen.single(o, [list(bits)])


def small_orders(ops, g):
    """every pair of integer vectors over a small domain, in every comparison"""
    for o in ops:
        if o.cls == "i":
            n = gen.TYPES[o.types[0]][1]
            dom = {2: (-1, 0, 1), 3: (-1, 0, 1), 4: (0, 1)}[n]
            vs = list(itertools.product(dom, repeat=n))
            for a in vs:
                for b in vs:
                    yield gen.single(o, [list(a), list(b)])
        elif o.cls == "b":
            n = gen.TYPES[o.types[0]][1]
            for bits in itertools.product((0, 1), repeat=2 * n):
                yield gen.single(o, [list(bits[:n]), list(bits[n:])])


def all_places(ops, g):
    """indexing and element access: every index; constructors and views: once with lanes that are all different"""
    for o in ops:
        if o.cls != "k":
            continue
        idx = [range(n) for n in gen.places(o)]
        for where in itertools.product(*idx):
            args, c = [], 1
            for k, t in enumerate(o.types):
                kind, n = gen.TYPES[t]
                if 1 <= k <= len(where):
                    args.append([where[k - 1]])
                    continue
                args.append([gen.pat(float(c + i)) if kind == "f" else c + i if kind == "i" else (c + i) % 3 % 2 for i in range(n)])
                c += n
            yield gen.single(o, args)


def every_name(ops, g):
    """every swizzle and component accessor, with different lanes and a bystander of the same type"""
    for o in ops:
        if o.cls in ("swz", "k") and o.op in ("get", "fmt", "set", "setc"):
            args = []
            for k, t in enumerate(o.types):
                kind, n = gen.TYPES[t]
                args.append([gen.pat(float(10 * k + i + 1)) if kind == "f" else 10 * k + i + 1 if kind == "i" else (k + i) % 2 for i in range(n)])
            yield gen.single(o, args, [(o.types[0], args[0])])


CORNERS = [0, -0x80000000, 1, -0x7fffffff, gen.pat(1.), gen.pat(-1.), gen.pat(2.5), gen.s32(0x7f7fffff), gen.pat(float("inf")), gen.pat(float("-inf")), gen.F_SPECIAL[11]]


def corners(ops, g):
    """calls on floats alone: every combination of the special values, in every lane"""
    for o in ops:
        if not o.types or len(o.types) > 3 or any(gen.TYPES[t][0] != "f" for t in o.types) or o.cls not in ("f", "r", "s", "rel", "e", "t"):
            continue
        dom = {1: gen.F_SPECIAL, 2: CORNERS, 3: [CORNERS[k] for k in (0, 1, 4, 5, 8, 10)]}[len(o.types)]
        combos = list(itertools.product(dom, repeat=len(o.types)))
        width = [gen.TYPES[t][1] for t in o.types]
        n = max(width)
        if min(width) == n:                          # a different combination in every lane
            for i in range(len(combos)):
                lanes = [combos[(i + 37 * k) % len(combos)] for k in range(n)]
                yield gen.single(o, [[l[a] for l in lanes] for a in range(len(o.types))])
        elif set(width) == {1, n}:                   # some operands are scalars
            for fixed in itertools.product(dom, repeat=width.count(1)):
                rest = list(itertools.product(dom, repeat=len(width) - width.count(1)))
                for i in range(len(rest)):
                    it, args, v = iter(fixed), [], 0
                    for w in width:
                        if w == 1:
                            args.append([next(it)])
                        else:
                            args.append([rest[(i + 3 * k) % len(rest)][v] for k in range(n)])
                            v += 1
                    yield gen.single(o, args)


def several(*f):
    return lambda ops, g: itertools.chain(*[e(ops, g) for e in f])


PROPS = {
    "P01": P(["reg_float"], cls("f"), [FB], extra=corners),
    "P02": P(["reg_int", "reg_inplace"], lambda o: o.cls == "i" and o.types[0] != "i" or o.cls == "i", [IB]),
    "P03": P(["reg_bool"], cls("b", "k"), [BB + ["i"]], quick=6000, extra=all_bools),
    "P04": P(["reg_inplace", "reg_access"], lambda o: any(o.inout), [FB + ["b"], IB + ["b"], MB, QB, BB], hist=1500, extra=corners),
    "P05": P(["reg_layout", "reg_bool"], cls("k"), [FB + ["i", "a2", "a3", "a4", "q"], IB, MB + ["i", "a4", "a9", "a16"], BB + ["i"]], hist=1000, extra=all_places, quick=30000),
    "P06": P(["swz", "reg_access", "reg_layout"], both(cls("swz"), ops_of("k", "get set"), cls("c", "ic")), [FB, IB], quick=24000, hist=400, extra=every_name),
    "P07": P(["reg_cmp"], cls("f", "i", "b"), [], quick=24000, extra=several(small_orders, corners)),
    "P08": P(["reg_common"], cls("r", "ir"), extra=corners),
    "P09": P(["reg_common"], cls("s", "is"), extra=corners),
    "P10": P(["reg_common", "reg_bool"], both(cls("rel", "red", "ired"), ops_of("b", "equal notEqual all any")), extra=corners),
    "P11": P(["reg_trans"], cls("e"), quick=30000, extra=corners),
    "P12": P(["reg_trans"], cls("t"), quick=30000, extra=corners),
    "P13": P(["reg_geom"], ops_of("g", "dot cross length length2 distance distance2 normalize")),
    "P14": P(["reg_geom"], ops_of("g", "reflect refract faceforward")),
    "P15": P(["reg_geom"], ops_of("g", "orthogonal orthogonal_branchless encode_octahedral decode_octahedral octround")),
    "P16": P(["reg_mat", "reg_inplace", "reg_layout"], lambda o: o.types and any(t[0] == "m" for t in o.types) and (o.cls == "f" and o.op not in ("eq", "ne")
             or o.cls == "m" and o.op in ("mm", "mv", "vm") or o.cls == "k" and o.op in ("ident", "mdiag", "elem", "col")), [MB + ["i"]], quick=24000, prof="good"),
    "P17": P(["reg_mat", "reg_inplace"], ops_of("m", "transpose determinant adjugate adjugateTranspose inverse inverseTranspose mdivm mdivv vdivm"), quick=24000),
    "P18": P(["reg_xform"], ops_of("x", "translate rotate scale lookAtRH lookAtLH"), quick=15000),
    "P19": P(["reg_xform"], lambda o: o.cls == "x" and o.op.startswith(("ortho", "perspective")), quick=15000),
    "P20": P(["reg_xform"], ops_of("x", "decompose"), quick=12000),
    "P21": P(["reg_quat", "reg_geom", "reg_layout"], both(ops_of("q", "mul conjugate inverse qv vq"), lambda o: o.cls == "f" and "q" in o.types,
             lambda o: o.cls == "k" and o.op in ("identq", "wxyz", "swxyz", "sv")), [QB], quick=24000, prof="good"),
    "P22": P(["reg_quat"], ops_of("q", "angle axis angleAxis rotate eulerAngles pitch yaw roll mat3_cast mat4_cast quat_cast castround castround4 lookRH lookLH fromto fromeuler"), quick=24000),
    "P23": P(["reg_quat"], ops_of("q", "lerp nlerp slerp"), quick=15000),
    "P24": P(["reg_color"], cls("col"), quick=24000),
    "P27": P(["reg_const"], cls("const"), quick=300),
}

# what the specification itself must satisfy: models checked with each property
LAWS = {
    "P01": ["LawsFloat"], "P02": ["LawsInt"], "P03": ["LawsInt"], "P04": ["LawsLayout"], "P05": ["LawsLayout"], "P06": ["LawsLayout"],
    "P07": ["LawsInt", "ContainerGen-laws"], "P08": ["LawsFloat"], "P09": ["LawsFloat"], "P10": ["LawsFloat"], "P11": ["MC_Arith"], "P12": ["MC_Arith"],
    "P13": ["LawsLinAlg"], "P14": ["LawsLinAlg"], "P15": ["LawsLinAlg"], "P16": ["LawsLinAlg"], "P17": ["LawsLinAlg"],
    "P18": ["LawsTransform"], "P19": ["LawsTransform"], "P20": ["LawsTransform"], "P21": ["LawsTransform"], "P22": ["LawsTransform"], "P23": ["LawsTransform"],
    "P24": ["LawsColor"], "P25": ["ContainerGen-laws"], "P27": ["LawsColor", "MC_Arith"],
}
