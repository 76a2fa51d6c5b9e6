#!/usr/bin/env python3
"""Plants errors in the specification and shows that its laws notice: each edit of a module (or of the Java class that
evaluates it) must make the named model fail.  Works on a scratch copy."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build

M = [
    # Java classes
    ("MC_Arith", "RealArith.java", "(c == 0 && q.testBit(0))", "(c == 0)"),
    ("MC_Arith", "RealArith.java", "int lsb = Math.max(top - 24, -149);", "int lsb = Math.max(top - 24, -150);"),
    ("MC_Arith", "RealArith.java", "case 1: return new Dy[]{cs, sn.neg()};", "case 1: return new Dy[]{cs, sn};"),
    ("MC_Arith", "RealArith.java", "i) * (2 * i - 1)", "i) * (2 * i + 1)"),
    ("MC_Arith", "RealArith.java", "r = r.shiftRight(8);", "r = r.shiftRight(7);"),
    ("MC_Arith", "RealArith.java", "if (ex == 0) ex = 1; else mm |= 1 << 23;", "mm |= 1 << 23;"),
    ("MC_Arith", "RealArith.java", "return mk(v, am * b.e + bm * a.e", "return mk(v, am * a.e"),
    ("MC_Arith", "RealArith.java", "a.e == 0 ? 0 : ETA) ||", "a.e == 0 ? 0 : 1e-3) ||"),
    ("MC_Arith", "Bits32.java", "i(a) ^ i(b)", "i(a) | i(b)"),
    # integers and Booleans
    ("LawsInt", "IntOps.tla", "RTrunc(q) == IF RLt(q, 0)", "RTrunc(q) == IF RLt(0, q)"),
    ("LawsInt", "IntOps.tla", "\\A j \\in 1..(i - 1) : a[j] = b[j]", "\\A j \\in 1..(i - 1) : a[j] >= b[j]"),
    ("LawsInt", "IntOps.tla", "REq(RFloor(RDiv(x, RPow2(y))), z)", "REq(RTrunc(RDiv(x, RPow2(y))), z)"),
    ("LawsInt", "IntOps.tla", '[] op = "ge"  -> z = <<B01(~LexLt(a[1], a[2]))>>', '[] op = "ge"  -> z = <<B01(LexLt(a[2], a[1]))>>'),
    ("LawsInt", "Lanes.tla", "At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]", "At(s, i) == s[1]"),
    ("LawsInt", "BoolOps.tla", 'op = "any" -> <<B01(\\E', 'op = "any" -> <<B01(\\A'),
    # floats
    ("LawsFloat", "Binary32.tla", "SZero(a < 0 /\\ b < 0)", "SZero(a < 0)"),
    ("LawsFloat", "Binary32.tla", "ELSE IF RIsEven(n) THEN n ELSE RAdd(n, 1)", "ELSE RAdd(n, 1)"),
    ("LawsFloat", "Binary32.tla", "FTrunc(a) == IF ~FFin(a) THEN Canon(a) ELSE IF a < 0 THEN FCeil(a)", "FTrunc(a) == IF ~FFin(a) THEN Canon(a) ELSE IF a < 0 THEN FFloor(a)"),
    ("LawsFloat", "Binary32.tla", "OrdKey(a) < OrdKey(b)", "OrdKey(a) <= OrdKey(b)"),
    ("LawsFloat", "Common.tla", "MaxV(x, y) == IF FNaN(y) THEN x ELSE IF FLt(x, y)", "MaxV(x, y) == IF FNaN(y) THEN x ELSE IF FLt(y, x)"),
    ("LawsFloat", "Common.tla", "MixBOK(x, y, t, z) == z = IF t = 1 THEN y ELSE x", "MixBOK(x, y, t, z) == z = IF t = 1 THEN x ELSE y"),
    ("LawsFloat", "Common.tla", "BAdd(BMul(B32(x), BSub(B32(One), B32(t))), BMul(B32(y), B32(t)))", "BAdd(BMul(B32(y), BSub(B32(One), B32(t))), BMul(B32(x), B32(t)))"),
    ("LawsFloat", "Common.tla", "IF FLt(e0, e1) /\\ FLe(x, e0) THEN FEq(z, PZero)", "IF FLt(e0, e1) /\\ FLe(x, e0) THEN FEq(z, One)"),
    # linear algebra
    ("LawsLinAlg", "LinAlg.tla", "BSub(BMul(a[3], b[1]), BMul(a[1], b[3]))", "BSub(BMul(a[1], b[3]), BMul(a[3], b[1]))"),
    ("LawsLinAlg", "LinAlg.tla", "MVec(m, v) == Tup([r \\in 1..Len(v) |-> BSum(Tup([k \\in 1..Len(v) |-> BMul(El(m, k - 1, r - 1), v[k])]))])",
     "MVec(m, v) == Tup([r \\in 1..Len(v) |-> BSum(Tup([k \\in 1..Len(v) |-> BMul(El(m, r - 1, k - 1), v[k])]))])"),
    ("LawsLinAlg", "LinAlg.tla", "Minor(m, Drop(Idx(n), r + 1), Drop(Idx(n), c + 1))", "Minor(m, Drop(Idx(n), c + 1), Drop(Idx(n), r + 1))"),
    ("LawsLinAlg", "LinAlg.tla", "IF (c + r) % 2 = 0 THEN d ELSE BNeg(d)", "d"),
    ("LawsLinAlg", "LinAlg.tla", "k == BSub(BReal(1), BMul(BMul(be, be), BSub(BReal(1), BMul(d, d))))", "k == BSub(BReal(1), BMul(be, BSub(BReal(1), BMul(d, d))))"),
    ("LawsLinAlg", "Lanes.tla", "El(m, c, r) == m[c * Order(m) + r + 1]", "El(m, c, r) == m[r * Order(m) + c + 1]"),
    # transforms and quaternions
    ("LawsTransform", "Quaternions.tla", "RSub(RMul(a[2], b[3]), RMul(a[3], b[2])))", "RSub(RMul(a[3], b[2]), RMul(a[2], b[3])))"),
    ("LawsTransform", "Transform.tla", "two(x, y, w, z, -1), RSub(1", "two(x, y, w, z, 1), RSub(1"),
    ("LawsTransform", "Transform.tla", "u == VCross(s, f) IN ViewM(s, u, VNeg(f), eye)", "u == VCross(f, s) IN ViewM(s, u, VNeg(f), eye)"),
    ("LawsTransform", "Transform.tla", "s == VUnit(VCross(up, f)) u", "s == VUnit(VCross(f, up)) u"),
    ("LawsTransform", "Transform.tla", "IF lo = 0 THEN BNeg(BDiv(n, d))", "IF lo = 0 THEN BNeg(BDiv(f, d))"),
    ("LawsTransform", "Transform.tla", "IF lo = 0 THEN BDiv(f, d) ELSE BDiv(BAdd(f, n), d)", "BDiv(BAdd(f, n), d)"),
    ("LawsTransform", "Transform.tla", "<<BAdd(e(2, 1), BMul(s, n[3]))", "<<BSub(e(2, 1), BMul(s, n[3]))"),
    ("LawsTransform", "Quaternions.tla", "m3(c[1], s[2], c[3]), m3(s[1], c[2], s[3])", "m3(c[1], s[2], c[3]), m3(s[1], c[2], c[3])"),
    ("LawsTransform", "Quaternions.tla", "BAsin(BWiden(p2(w, y, x, z, -1), e))", "BAsin(BWiden(p2(w, y, x, z, 1), e))"),
    ("LawsTransform", "Quaternions.tla", "xx == RScale(RDiv(1, l), cr) yy", "xx == RScale(RDiv(-1, l), cr) yy"),
    ("LawsTransform", "Quaternions.tla", "wa == RDiv(RSin(RMul(RSub(1, t), th)), s)", "wa == RDiv(RSin(RMul(RSub(1, t), th)), 1)"),
    ("LawsTransform", "Transform.tla", "RNearVec(RScale(R32(s[j + 1]), SubSeq(R, 3 * j + 1, 3 * j + 3)), c, RMul(RPow2(-16), RLen(c)))", "TRUE"),
    # elementary functions
    ("MC_Arith", "RealArith.tla", "RLog2(a)   == RDiv(RLog(a), RLog(2))", "RLog2(a)   == RMul(RLog(a), RLog(2))"),
    ("MC_Arith", "RealArith.tla", "ELSE IF RSgn(y) < 0 THEN RSub(RAtan(RDiv(y, x)), RPi)", "ELSE IF RSgn(y) < 0 THEN RAdd(RAtan(RDiv(y, x)), RPi)"),
    ("MC_Arith", "RealArith.tla", "ELSE IF RSgn(x) > 0 THEN RAtan(RDiv(y, x))", "ELSE IF RSgn(x) > 0 THEN RAtan(RDiv(x, y))"),
    ("MC_Arith", "RealArith.tla", "RAcos(a)   == RAtan2(RSqrt(RMul(RSub(1, a), RAdd(1, a))), a)", "RAcos(a)   == RAtan2(RSqrt(RMul(RSub(1, a), RAdd(1, a))), RAbs(a))"),
    ("MC_Arith", "RealArith.tla", "RSinh(a)   == RDiv(RSub(RExp(a), RExp(RNeg(a))), 2)", "RSinh(a)   == RDiv(RSub(RExp(RNeg(a)), RExp(a)), 2)"),
    ("MC_Arith", "RealArith.tla", "RTanh(a)   == RSub(1, RDiv(2, RAdd(1, RExp(RMul(2, a)))))", "RTanh(a)   == RSub(1, RDiv(2, RAdd(1, RExp(a))))"),
    ("MC_Arith", "RealArith.tla", "RSgn(a) < 0 THEN RNeg(RLog(RAdd(RNeg(a), RSqrt(RAdd(RMul(a, a), 1)))))", "RSgn(a) < 0 THEN RLog(RAdd(RNeg(a), RSqrt(RAdd(RMul(a, a), 1))))"),
    ("MC_Arith", "RealArith.tla", "RAcosh(a)  == RLog(RAdd(a, RSqrt(RMul(RSub(a, 1), RAdd(a, 1)))))", "RAcosh(a)  == RLog(RAdd(a, RSqrt(RAdd(RMul(a, a), 1))))"),
    ("MC_Arith", "RealArith.tla", "RAtanh(a)  == RDiv(RLog(RDiv(RAdd(1, a), RSub(1, a))), 2)", "RAtanh(a)  == RLog(RDiv(RAdd(1, a), RSub(1, a)))"),
    ("MC_Arith", "RealArith.tla", "IF RSgn(a) < 0 /\\ ~RIsEven(b) THEN RNeg(m) ELSE m", "m"),
    ("LawsFloat", "Elementary.tla", "IF FZero(t) THEN y = NInf ELSE IF t < 0 THEN IsNaN(y) ELSE FNear(y, F(R32(t)))", "IF FZero(t) THEN y = PInf ELSE IF t < 0 THEN IsNaN(y) ELSE FNear(y, F(R32(t)))"),
    ("LawsFloat", "Elementary.tla", "RMul(RSub(2, RPow2(-24)), RPow2(127))", "RMul(RSub(2, RPow2(-24)), RPow2(126))"),
    ("LawsFloat", "Elementary.tla", "RAdd(RMul(RPow2(-24), RAbs(r)), RPow2(-149))", "RAdd(RMul(RPow2(-24), RAbs(r)), 1)"),
    ("LawsFloat", "Elementary.tla", "IF x < 0 THEN FNear(z, RMul(IF y < 0 THEN -1 ELSE 1, RPi)) ELSE z = y", "z = y"),
    ("LawsFloat", "Elementary.tla", "ELSE IF x < 0 /\\ ~RIsInt(R32(y)) THEN IsNaN(z)", "ELSE IF x < 0 THEN IsNaN(z)"),
    ("LawsFloat", "Elementary.tla", "IF (FMag(x) > One) = (y > 0) THEN Inf(z)", "IF y > 0 THEN Inf(z)"),
    ("LawsFloat", "Elementary.tla", "SqrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN y = t ELSE IF t < 0 THEN IsNaN(y)", "SqrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN y = t ELSE IF t < 0 THEN IsZero(y)"),
    ("LawsFloat", "Elementary.tla", "OddInt(y) == FFin(y) /\\ RIsInt(R32(y)) /\\ ~RIsEven(R32(y))", "OddInt(y) == FFin(y) /\\ RIsInt(R32(y))"),
    ("LawsFloat", "Elementary.tla", "CbrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN y = t", "CbrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN FZero(y)"),
    ("LawsFloat", "Common.tla", "neg # {} /\\ Cardinality(neg) = 2 * k + 1", "neg # {} /\\ Cardinality(neg) = 2 * k"),
    ("LawsFloat", "Common.tla", "IF Has(v, FZero) THEN FNaN(z) ELSE AllModest(v)", "IF FALSE THEN FNaN(z) ELSE AllModest(v)"),
    ("LawsFloat", "Common.tla", "ELSE IF Has(v, LAMBDA x : x = PInf) /\\ Has(v, LAMBDA x : x = NInf) THEN FNaN(z)", "ELSE IF FALSE THEN FNaN(z)"),
    ("LawsFloat", "Common.tla", "StepOK(e, x, z) == FEq(z, IF FLt(x, e) THEN PZero ELSE One)", "StepOK(e, x, z) == FEq(z, IF FLe(x, e) THEN PZero ELSE One)"),
    ("LawsFloat", "Common.tla", "IF FLt(e0, e1) /\\ FLe(e1, x) THEN FEq(z, One)", "IF FALSE THEN FEq(z, One)"),
    ("LawsFloat", "Common.tla", "ClampOK(x, lo, hi, z) == FNaN(x) \\/ Same(MinV(MaxV(x, lo), hi), z)", "ClampOK(x, lo, hi, z) == FNaN(x) \\/ Same(MaxV(MinV(x, lo), hi), z)"),
    ("LawsFloat", "Common.tla", "LET q == FFloor(FDiv(x, y)) IN", "LET q == FTrunc(FDiv(x, y)) IN"),
    ("LawsFloat", "Common.tla", "(\\E i \\in 1..Len(v) : FEq(z[1], v[i])) /\\ \\A i \\in 1..Len(v) : FLe(z[1], v[i])", "(\\E i \\in 1..Len(v) : FEq(z[1], v[i]))"),
    # geometry and quaternions
    ("LawsLinAlg", "LinAlg.tla", "s \\in {-1, 0, 2} /\\ SameVec(a[1], z)", "s \\in {1, 0, 2} /\\ SameVec(a[1], z)"),
    ("LawsLinAlg", "LinAlg.tla", "RLe(RLen(rv), RMul(8, RLen(rz)))", "TRUE"),
    ("LawsLinAlg", "LinAlg.tla", "CloseAll(z, VSub(Balls(a[1]), VScale(BMul(BReal(2), VDot(", "CloseAll(z, VSub(Balls(a[1]), VScale(BMul(BReal(1), VDot("),
    ("LawsLinAlg", "LinAlg.tla", "Fin(z) /\\ UnitVec(z, RPow2(-19))", "Fin(z)"),
    ("LawsTransform", "Quaternions.tla", "RLt(c, RPow2(-20)) /\\ RNearVec(Reals_(z), bwd, tol)", "RNearVec(Reals_(z), bwd, tol)"),
    ("LawsTransform", "Quaternions.tla", "a[3][1] = One => SameVec(a[2], z)", "a[3][1] = One => SameVec(a[1], z)"),
    ("LawsTransform", "Quaternions.tla", "Fin(z) /\\ UnitQ(z, RPow2(-20)) /\\ RNearVec(RMatVec3(RotOf(Reals_(z)), nu), nv, tol)", "Fin(z) /\\ UnitQ(z, RPow2(-20)) /\\ RNearVec(RMatVec3(RotOf(Reals_(z)), nv), nu, tol)"),
    ("LawsTransform", "Transform.tla", "\\A j \\in 1..3 : FLt(PZero, s[j])", "TRUE"),
    ("LawsTransform", "Transform.tla", "\\A i \\in 1..3 : FEq(t[i], m[12 + i])", "TRUE"),
    ("LawsColor", "Color.tla", "Below(c, t) == RLt(R32(c), t)", "Below(c, t) == RLt(t, R32(c))"),
    ("LawsColor", "Color.tla", "Len(c) = 4 => z[4] = Canon(c[4])", "TRUE"),
    ("LawsColor", "Color.tla", "LET c == Clamp01(c0) IN", "LET c == c0 IN"),
    # layout, colour, containers
    ("LawsLayout", "Lanes.tla", '[] l \\in {"z", "b", "p"} -> 3', '[] l \\in {"z", "b"} -> 3\n    [] l = "p" -> 2'),
    ("LawsLayout", "Layout.tla", '"setelem" -> Replace(a[1], a[2][1] * Order(a[1]) + a[3][1] + 1', '"setelem" -> Replace(a[1], a[3][1] * Order(a[1]) + a[2][1] + 1'),
    ("LawsLayout", "Layout.tla", "IF c < o /\\ r < o THEN El(m, c, r) ELSE IF c = r", "IF c < o /\\ r < o THEN El(m, r, c) ELSE IF c = r"),
    ("LawsLayout", "Layout.tla", '[] op \\in {"wxyz", "swxyz"} -> <<a[2][1], a[3][1], a[4][1], a[1][1]>>', '[] op \\in {"wxyz", "swxyz"} -> <<a[1][1], a[2][1], a[3][1], a[4][1]>>'),
    ("LawsColor", "Color.tla", "EncLow(c) == BMul(B32(c), KC(1292, 100))", "EncLow(c) == BMul(B32(c), KC(1392, 100))"),
    ("LawsColor", "Color.tla", "DecHigh(c, g) == BPow(BMul(BAdd(", "DecHigh(c, g) == BPow(BMul(BSub("),
    ("LawsColor", "Color.tla", "KC(323583601, m)", "KC(332583601, m)"),
    ("LawsColor", "Constants.tla", '[] op = "three_over_two_pi" -> RDiv(RMul(3, RPi), 2)', '[] op = "three_over_two_pi" -> RDiv(3, RMul(2, RPi))'),
    ("LawsColor", "Constants.tla", '[] op = "root_ln_four" -> RSqrt(RLog(4))', '[] op = "root_ln_four" -> RLog(RSqrt(4))'),
    ("LawsColor", "Constants.tla", "57721566, RMul", "57721567, RMul"),
    ("ContainerGen-laws", "Containers.tla", "Inserted(content, k, v) == IF Has(content, k) THEN content", "Inserted(content, k, v) == IF FALSE THEN content"),
    ("ContainerGen-laws", "Containers.tla", "Erased(content, k) == content \\ Entry(content, k)", "Erased(content, k) == {e \\in content : e[1] # k}"),
]


def try_one(k):
    model, mod, old, new = M[k]
    d = tempfile.mkdtemp(prefix="specmut_")
    try:
        src = os.path.join(build.VERIF, "spec")
        for f in os.listdir(src):
            shutil.copy(os.path.join(src, f), d)
        p = os.path.join(d, mod)
        s = open(p).read()
        if s.count(old) < 1:
            return k, "STALE"
        open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["javac", "-nowarn", "-cp", build.CP] + [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".java")], capture_output=True, text=True)
        if r.returncode:
            return k, "JAVAC " + r.stderr
        r = subprocess.run(["timeout", "400", "java", "-Xss64m", "-Xmx3g", "-Djava.io.tmpdir=" + d, "-cp", d + ":" + build.CP, "tlc2.TLC", "-config", model + ".cfg", "-metadir", d + "/meta",
                            "-noGenerateSpecTE", "-workers", "2", model.split("-")[0] + ".tla"], cwd=d, capture_output=True, text=True)
        out = r.stdout + r.stderr
        if "is violated" in out:
            return k, "noticed: " + out[out.index("Invariant "):].split("\n")[0]
        if "Error:" in out:
            return k, "noticed (evaluation error): " + out[out.index("Error:"):][:160].replace("\n", " ")
        return k, "MISSED (exit %d)" % r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    want = [k for k in range(len(M)) if len(sys.argv) < 2 or M[k][0] in sys.argv[1:]]
    bad = 0
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for k, res in ex.map(try_one, want):
            print("%-18s %-18s %s" % (M[k][0], M[k][1], res), "" if res.startswith("noticed") else M[k][2][:100])
            bad += not res.startswith("noticed")
    print("%d of %d planted errors noticed" % (len(want) - bad, len(want)))
    sys.exit(1 if bad else 0)
