------------------------------ MODULE LawsFloat ------------------------------
(* What IEEE arithmetic and the common functions must satisfy.                *)
EXTENDS FloatOps, Common, Elementary, FiniteSets, TLC
VARIABLE s
Pos == {0, 1, 2, 8388607, 8388608, 8388609, 864026624, 1036831949, 1056964607, 1056964608, 1065353215, 1065353216, 1065353217, 1069547520,
        1073741824, 1075838976, 1078530011, 1084227584, 1258291199, 1258291200, 1258291201, 1266679807, 1266679808, 1325400064, 2130706432, 2139095039, 2139095040}
Neg_(b) == (b - 2147483647) - 1
Fl == Pos \cup {Neg_(b) : b \in Pos} \cup {QNaN}
Few == {0, NZero, 1, 8388607, 1056964608, 1065353216, MOne, 1069547520, Neg_(1069547520), 1084227584, 1266679807, 2139095039, Neg_(2139095039), PInf, NInf, QNaN}
Init ==
  \/ \E a \in Fl : s = <<"one", a>>
  \/ \E a, b \in Fl : s = <<"two", a, b>>
  \/ \E a, b, c \in Few : s = <<"three", a, b, c>>
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
MulHalf(a, b) == FAdd(FMul(a, 1056964608), FMul(b, 1056964608))        \* the middle
Sum0(r, neg) == r = Rnd(RAdd(0, 0), neg)
Unary ==
  s[1] = "one" =>
    LET a == s[2] IN
    /\ FNeg(FNeg(a)) = a /\ FAbs(FNeg(a)) = FAbs(a) /\ ~FNegSign(FAbs(a))
    /\ FMul(a, One) = a /\ FDiv(a, One) = a /\ FAdd(a, NZero) = a /\ FSub(a, PZero) = a /\ FMul(a, MOne) = FNeg(a)
    /\ FAdd(a, a) = FMul(a, 1073741824) /\ FFma(a, One, NZero) = a
    /\ FFin(a) => FSub(a, a) = PZero /\ (~FZero(a) => FDiv(a, a) = One)
    /\ FFin(a) => LET q == FSqrt(FAbs(a)) p == FMul(q, q) IN FFin(q) /\ (FMag(a) >= 8388608 => RLe(RAbs(RSub(R32(p), R32(FAbs(a)))), RMul(RPow2(-22), R32(FAbs(a)))))
    (* integral roundings: bracketed, idempotent, dual, and they agree where they must *)
    /\ FFin(a) => LET x == R32(a) f == FFloor(a) c == FCeil(a) t == FTrunc(a) r == FRoundAway(a) e == FRoundEven(a)
                      isInt(b) == REq(RFloor(R32(b)), R32(b)) IN
         /\ \A b \in {f, c, t, r, e} : isInt(b) /\ FFloor(b) = b /\ FCeil(b) = b /\ FTrunc(b) = b /\ FRoundAway(b) = b /\ FRoundEven(b) = b
                                       /\ RLt(RAbs(RSub(R32(b), x)), 1)
         /\ FLe(f, a) /\ FLe(a, c) /\ c = FNeg(FFloor(FNeg(a))) /\ FLe(FAbs(t), FAbs(a))
         /\ RLe(RAbs(RSub(R32(r), x)), Half) /\ RLe(RAbs(RSub(R32(e), x)), Half)
         /\ RLt(RAbs(RSub(R32(r), x)), Half) => r = e
         /\ REq(RAbs(RSub(R32(e), x)), Half) => RIsEven(R32(e)) /\ RLt(RAbs(x), RAbs(R32(r)))
         /\ isInt(a) => f = a /\ c = a /\ t = a /\ r = a /\ e = a
         /\ FNegSign(a) => FNegSign(f) /\ FNegSign(c) /\ FNegSign(t)
         /\ FLe(PZero, FFract(a)) /\ FLe(FFract(a), One)
    /\ FSign(a) = FSign(FMul(a, 1073741824)) /\ FMul(FSignNZ(a), FAbs(a)) = (IF a = NZero THEN PZero ELSE a)
    /\ FSign(a) \in {MOne, PZero, One, QNaN} /\ FSignNZ(a) \in {MOne, One}
    /\ Cardinality({k \in {"nan", "inf", "zero", "other"} : CASE k = "nan" -> FNaN(a) [] k = "inf" -> FInf(a) [] k = "zero" -> FZero(a)
                                                             [] OTHER -> FFin(a) /\ ~FZero(a)}) = 1
Binary ==
  s[1] = "two" =>
    LET a == s[2] b == s[3] num == ~FNaN(a) /\ ~FNaN(b) IN
    /\ FAdd(a, b) = FAdd(b, a) /\ FMul(a, b) = FMul(b, a) /\ FSub(a, b) = FAdd(a, FNeg(b))
    /\ FMul(FNeg(a), b) = FNeg(FMul(a, b)) /\ FDiv(FNeg(a), b) = FNeg(FDiv(a, b)) /\ FDiv(a, FNeg(b)) = FNeg(FDiv(a, b))
    /\ FNeg(FAdd(a, b)) = FAdd(FNeg(a), FNeg(b)) \/ FZero(FAdd(a, b))
    /\ FFma(a, One, b) = FAdd(a, b) /\ FFma(One, a, b) = FAdd(a, b)
    (* reductions of two components are the operators *)
    /\ SumOK(<<a, b>>, FAdd(a, b)) /\ ProductOK(<<a, b>>, FMul(a, b)) /\ SumOK(<<a, PZero, b, NZero>>, FAdd(a, b)) /\ ProductOK(<<a, One, b, MOne>>, FNeg(FMul(a, b)))
    /\ (FNaN(FAdd(a, b)) => ~SumOK(<<a, b>>, a) \/ FNaN(a)) /\ (FNaN(FMul(a, b)) => ~ProductOK(<<a, b>>, PZero) /\ ~ProductOK(<<b, One, a>>, PInf))
    /\ FInf(a) /\ b = One => ~ProductOK(<<a, b>>, FNeg(a)) /\ ~SumOK(<<a, b>>, QNaN) /\ ~SumOK(<<b, a>>, FNeg(a))
    /\ num => \A w \in {<<a, b>>, <<b, a>>, <<a, b, a>>, <<a, b, b, a>>} :
         /\ ReduceAllowed("compMin", <<w>>, <<MinV(a, b)>>) /\ ReduceAllowed("compMax", <<w>>, <<MaxV(a, b)>>)
         /\ FLt(a, b) => ~ReduceAllowed("compMin", <<w>>, <<b>>) /\ ~ReduceAllowed("compMax", <<w>>, <<a>>)
         /\ ~FNaN(MulHalf(a, b)) /\ FLt(a, MulHalf(a, b)) /\ FLt(MulHalf(a, b), b) => ~ReduceAllowed("compMin", <<w>>, <<MulHalf(a, b)>>) /\ ~ReduceAllowed("compMax", <<w>>, <<MulHalf(a, b)>>)
    /\ FNaN(a) \/ FNaN(b) => \A r \in {FAdd(a, b), FSub(a, b), FMul(a, b), FDiv(a, b)} : FNaN(r)
    /\ (FFin(a) /\ FFin(b)) => FFin(FAdd(a, b)) \/ FMag(a) >= 2122317824 \/ FMag(b) >= 2122317824
    /\ FFin(a) /\ FFin(b) /\ FEq(FSub(a, b), PZero) => FEq(a, b)              \* subnormals keep differences apart
    (* order: exactly one of <, =, > for numbers; none for NaN *)
    /\ IF num THEN Cardinality({k \in {1, 2, 3} : CASE k = 1 -> FLt(a, b) [] k = 2 -> FEq(a, b) [] k = 3 -> FLt(b, a)}) = 1
       ELSE ~FLt(a, b) /\ ~FLe(a, b) /\ ~FEq(a, b) /\ ~FLt(b, a)
    /\ FLe(a, b) <=> FLt(a, b) \/ FEq(a, b)
    /\ (FFin(a) /\ FFin(b)) => (FLt(a, b) <=> RLt(R32(a), R32(b))) /\ (FEq(a, b) <=> REq(R32(a), R32(b)))
    /\ num => FLe(MinV(a, b), a) /\ FLe(MinV(a, b), b) /\ FLe(a, MaxV(a, b)) /\ FLe(b, MaxV(a, b)) /\ Same(MinV(a, b), FNeg(MaxV(FNeg(a), FNeg(b))))
    /\ StepOK(a, b, IF FLt(b, a) THEN PZero ELSE One)
    (* mod has the divisor's sign and stays below it, as far as one rounding allows *)
    /\ (FFin(a) /\ FFin(b) /\ ~FZero(b) /\ FMag(a) < 1258291200 /\ FMag(b) > 1036831948 /\ FMag(b) < 1258291200) =>
         LET m == FSub(a, FMul(b, FFloor(FDiv(a, b)))) IN ModOK(a, b, m) /\ (FMag(a) <= 1092616192 /\ FMag(b) >= 1056964608 => ~ModOK(a, b, FAdd(m, b)))
    (* comparisons of vectors: all lanes decide *)
    /\ FloatResult("eq", <<<<a, b>>, <<a, b>>>>) = <<B01(num)>> /\ FloatResult("ne", <<<<a, b>>, <<a, b>>>>) = <<B01(~num)>>
    /\ FloatResult("eq", <<<<a, b>>, <<b, a>>>>) = <<B01(FEq(a, b))>>
    /\ FloatResult("sub", <<<<a>>, <<b, a>>>>) = <<FSub(a, b), FSub(a, a)>>
Ternary ==
  s[1] = "three" =>
    LET a == s[2] b == s[3] c == s[4] num == ~FNaN(a) /\ ~FNaN(b) /\ ~FNaN(c) IN
    /\ FLt(a, b) /\ FLt(b, c) => FLt(a, c)
    /\ num /\ FLe(a, b) => FLe(FAdd(a, c), FAdd(b, c)) \/ FNaN(FAdd(a, c)) \/ FNaN(FAdd(b, c))                 \* monotone
    /\ num /\ FLe(a, b) /\ FLe(PZero, c) => FLe(FMul(a, c), FMul(b, c)) \/ FNaN(FMul(a, c)) \/ FNaN(FMul(b, c))
    /\ FFma(a, b, c) = FFma(b, a, c) /\ FFma(FNeg(a), FNeg(b), c) = FFma(a, b, c)
    /\ (FFin(a) /\ FFin(b) /\ FFin(c)) => LET x == FFma(a, b, c) IN FFin(x) => RLe(RAbs(RSub(R32(x), RAdd(RMul(R32(a), R32(b)), R32(c)))),
                                            RAdd(RMul(RPow2(-24), RAbs(R32(x))), RPow2(-150)))
    /\ num /\ FLe(b, c) => LET z == MinV(MaxV(a, b), c) IN FLe(b, z) /\ FLe(z, c) /\ (FLe(b, a) /\ FLe(a, c) => FEq(z, a)) /\ ClampOK(a, b, c, z)
    /\ (FFin(a) /\ FFin(b)) => /\ MixOK(a, b, PZero, a) /\ MixOK(a, b, One, b)
                               /\ (FMag(a) > 864026624 /\ FMag(a) < 2122317824 /\ FNeg(a) = b) => ~MixOK(a, b, PZero, b)
    /\ MixBOK(a, b, 0, a) /\ MixBOK(a, b, 1, b) /\ (a # b => ~MixBOK(a, b, 1, a))
    /\ (FLt(b, c) /\ FFin(a) /\ FFin(b) /\ FFin(c) /\ ~BIsTop(SmoothBall(b, c, a))) =>
         /\ FLe(a, b) => ~SmoothOK(b, c, a, One)
         /\ FLe(c, a) => ~SmoothOK(b, c, a, PZero)
-------------------------------------------------------------------------------
(* elementary functions: admission of results, and the values the format forces *)
Admission ==
  s[1] = "one" =>
    LET a == s[2] two == 1073741824 IN
    /\ FFin(a) => FNear(a, R32(a)) /\ FNear(a, RMul(R32(a), RAdd(1, RPow2(-24)))) /\ ~FNear(QNaN, R32(a))
    /\ (FFin(a) /\ FMag(a) > 8389608 /\ FMag(a) < 2139095039) => /\ ~FNear(a + 40, R32(a)) \/ FMag(a) > 2139094000
                                                                /\ ~FNear(a - 40, R32(a)) /\ ~FNear(FNeg(a), R32(a))
                                                                /\ ~FNear(PInf, R32(a)) /\ ~FNear(NInf, R32(a)) /\ ~FNear(PZero, R32(a))
    /\ FNear(PInf, RPow2(128)) /\ FNear(NInf, RNeg(RPow2(129))) /\ ~FNear(NInf, RPow2(128)) /\ ~FNear(PInf, RPow2(127)) /\ ~FNear(2139095039, RPow2(129))
    /\ FNear(PZero, RPow2(-200)) /\ FNear(NZero, RPow2(-150)) /\ ~FNear(PZero, RPow2(-140)) /\ ~FNear(1, RPow2(-140))
    /\ PowOK(a, One, a) \/ FNaN(a)
    /\ PowOK(a, two, FMul(a, a)) /\ PowOK(a, MOne, FDiv(One, a)) /\ PowOK(a, PZero, One) /\ PowOK(One, a, One)
    /\ (FLe(PZero, a) /\ a # NZero) => PowOK(a, 1056964608, FSqrt(a))
    /\ SqrtOK(a, FSqrt(a)) /\ (FMag(a) > 1000 \/ FZero(a) => InvSqrtOK(a, FDiv(One, FSqrt(a))))
    /\ \A z \in Fl \cup {1070141403, Neg_(1070141403), 1061752795} : AtanOK(a, z) => Atan2OK(a, One, z) \/ FInf(a) \/ FZero(a)
    /\ AtanOK(PInf, 1070141403) /\ AtanOK(NInf, Neg_(1070141403)) /\ AtanOK(One, 1061752795) /\ ~AtanOK(PInf, PInf) /\ ~AtanOK(NInf, 1070141403)
    (* the infinities, the poles and NaN *)
    /\ \A o \in {"exp", "exp2", "log", "log2", "sqrt", "inversesqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh",
                  "acosh", "atanh", "radians", "degrees"} :
         LET A(x, z) == ElementaryAllowed(o, <<<<x>>>>, <<z>>) IN
         /\ A(QNaN, a) <=> FNaN(a)
         /\ A(PInf, a) <=> CASE o \in {"exp", "exp2", "log", "log2", "sqrt", "cbrt", "sinh", "cosh", "asinh", "acosh", "radians", "degrees"} -> a = PInf
                              [] o = "inversesqrt" -> FZero(a) [] o = "tanh" -> a = One [] o = "atan" -> a = 1070141403 [] OTHER -> FNaN(a)
         /\ A(NInf, a) <=> CASE o \in {"exp", "exp2"} -> FZero(a) [] o = "cosh" -> a = PInf [] o = "tanh" -> a = MOne [] o = "atan" -> a = Neg_(1070141403)
                              [] o \in {"cbrt", "sinh", "asinh", "radians", "degrees"} -> a = NInf [] OTHER -> FNaN(a)
         /\ A(PZero, a) <=> CASE o \in {"exp", "exp2", "cos", "cosh"} -> a \in {One, 1065353217, 1065353215}
                               [] o \in {"log", "log2"} -> a = NInf [] o = "inversesqrt" -> FInf(a) [] o = "acosh" -> FNaN(a)
                               [] o = "acos" -> a = 1070141403 [] o \in {"sqrt", "cbrt"} -> a = PZero [] OTHER -> FMag(a) <= 8
         /\ o \in {"sqrt", "cbrt"} => (A(NZero, a) <=> a = NZero)
         /\ A(MOne, a) => CASE o \in {"log", "log2", "sqrt", "inversesqrt", "acosh"} -> FNaN(a) [] o = "atanh" -> a = NInf
                             [] o \in {"exp", "exp2", "cos", "cosh", "acos"} -> a > 0 [] OTHER -> a < 0
         /\ A(1073741824, a) => (o \in {"asin", "acos", "atanh"} <=> FNaN(a))
ArcTangent ==
  s[1] = "three" =>
    LET y == s[2] x == s[3] z == s[4] IN
    /\ Atan2OK(y, x, z) <=> Atan2OK(FNeg(y), x, FNeg(z))
    /\ (Atan2OK(y, x, z) /\ ~FNaN(x) /\ ~FNaN(y) /\ ~(FZero(x) /\ FZero(y))) =>
         /\ FLe(FAbs(z), 1078530012)
         /\ ~FZero(y) /\ ~FZero(z) => (y < 0 <=> z < 0)
         /\ x > 0 => FLe(FAbs(z), 1070141404)
         /\ (x < 0 /\ ~FZero(x)) => FLe(1070141402, FAbs(z))
    (* on the axes: the sign of y, and a half turn exactly when x is negative, zeros included *)
    /\ (Atan2OK(y, x, z) /\ ~FNaN(x) /\ FZero(y)) => (z < 0 <=> y < 0) /\ (IF x < 0 THEN FLt(1078000000, FAbs(z)) ELSE FZero(z))
    (* a negative value needs a negative base and an odd exponent; -0 to an even or fractional power is +0 or +inf *)
    /\ (PowOK(y, x, z) /\ ~FNaN(x) /\ ~FNaN(y) /\ (FZero(y) \/ FInf(y)) /\ ~FZero(x)) =>
         /\ FZero(z) \/ FInf(z)
         /\ z < 0 <=> (y < 0 /\ FFin(x) /\ RIsInt(R32(x)) /\ RIsInt(RDiv(RSub(R32(x), 1), 2)))
    /\ (PowOK(y, x, z) /\ ~FNaN(x) /\ ~FNaN(y)) =>
         /\ FNaN(z) <=> (FFin(y) /\ y < 0 /\ ~FZero(y) /\ FFin(x) /\ ~RIsInt(R32(x)))
         /\ (FLt(One, y) /\ FLt(PZero, x)) => FLe(One, z)
         /\ (FLt(One, y) /\ FLt(x, PZero)) => FLe(z, One)
         (* infinite exponents: growth or decay, by the side of one on which the base lies *)
         /\ (FInf(x) /\ FMag(y) # One) => IF (FMag(y) > One) = (x = PInf) THEN z = PInf ELSE FZero(z)
=============================================================================
