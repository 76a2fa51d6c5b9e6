----------------------------- MODULE Elementary -----------------------------
(* Exponential and trigonometric functions per lane, against the real-valued  *)
(* functions on the whole of binary32: a few units in the last place are      *)
(* allowed, results too large for the format become infinite, results below   *)
(* the normal range keep their absolute accuracy, and arguments outside the   *)
(* domain give NaN, as in C.                                                  *)
EXTENDS Binary32, Lanes

TooLarge == RMul(RSub(2, RPow2(-24)), RPow2(127))     \* rounds to infinity from here on
(* z is r within a few units in the last place *)
FNear(z, r) ==
  IF FFin(z) THEN RLe(RAbs(RSub(R32(z), r)), RMul(8, RAdd(RMul(RPow2(-24), RAbs(r)), RPow2(-149))))
  ELSE FInf(z) /\ RSgn(r) = (IF z < 0 THEN -1 ELSE 1) /\ RLe(TooLarge, RMul(RAbs(r), RAdd(1, RPow2(-21))))
IsNaN(z)  == FNaN(z)
IsZero(z) == FZero(z)
AnyInf(z) == FInf(z)                  \* at a pole the sign may follow the sign of a zero
(* f on the finite arguments; neg, pos: what holds of the value at the infinities *)
Whole(f(_,_), neg(_), pos(_), x, z) ==
  IF FNaN(x) THEN IsNaN(z) ELSE IF x = NInf THEN neg(z) ELSE IF x = PInf THEN pos(z) ELSE f(x, z)
Inf(z) == z = PInf
MInf(z) == z = NInf
IsOne(z) == z = One
IsMOne(z) == z = MOne
Quarter(g) == RMul(g, RDiv(RPi, 2))

ExpOK(F(_), x, z)  == Whole(LAMBDA t, y : FNear(y, F(R32(t))), IsZero, Inf, x, z)
(* logarithms: a pole at zero, nothing below *)
LogOK(F(_), x, z)  == Whole(LAMBDA t, y : IF FZero(t) THEN y = NInf ELSE IF t < 0 THEN IsNaN(y) ELSE FNear(y, F(R32(t))), IsNaN, Inf, x, z)
SqrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN y = t ELSE IF t < 0 THEN IsNaN(y) ELSE FNear(y, RSqrt(R32(t))), IsNaN, Inf, x, z)
InvSqrtOK(x, z)    == Whole(LAMBDA t, y : IF FZero(t) THEN AnyInf(y) ELSE IF t < 0 THEN IsNaN(y) ELSE FNear(y, RDiv(1, RSqrt(R32(t)))), IsNaN, IsZero, x, z)
(* odd functions that grow without bound *)
CbrtOK(x, z)       == Whole(LAMBDA t, y : IF FZero(t) THEN y = t ELSE FNear(y, RCbrt(R32(t))), MInf, Inf, x, z)
OddOK(F(_), x, z)  == Whole(LAMBDA t, y : FNear(y, F(R32(t))), MInf, Inf, x, z)
CoshOK(x, z)       == Whole(LAMBDA t, y : FNear(y, RCosh(R32(t))), Inf, Inf, x, z)
TanhOK(x, z)       == Whole(LAMBDA t, y : FNear(y, RTanh(R32(t))), IsMOne, IsOne, x, z)
AtanOK(x, z)       == Whole(LAMBDA t, y : FNear(y, RAtan(R32(t))), LAMBDA y : FNear(y, Quarter(-1)), LAMBDA y : FNear(y, Quarter(1)), x, z)
PeriodicOK(F(_), x, z) == Whole(LAMBDA t, y : FNear(y, F(R32(t))), IsNaN, IsNaN, x, z)
Within1(x)         == FMag(x) <= One
ArcOK(F(_), x, z)  == Whole(LAMBDA t, y : IF Within1(t) THEN FNear(y, F(R32(t))) ELSE IsNaN(y), IsNaN, IsNaN, x, z)
AcoshOK(x, z)      == Whole(LAMBDA t, y : IF FLt(t, One) THEN IsNaN(y) ELSE FNear(y, RAcosh(R32(t))), IsNaN, Inf, x, z)
AtanhOK(x, z)      == Whole(LAMBDA t, y : IF FMag(t) = One THEN y = SInf(t < 0) ELSE IF Within1(t) THEN FNear(y, RAtanh(R32(t))) ELSE IsNaN(y),
                            IsNaN, IsNaN, x, z)
(* x to the y; a zero or an infinity as in C: negative only for a negative base and an odd exponent *)
OddInt(y) == FFin(y) /\ RIsInt(R32(y)) /\ ~RIsEven(R32(y))
PowOK(x, y, z) ==
  IF FZero(y) \/ x = One THEN IsOne(z) \/ ((FNaN(x) \/ FNaN(y)) /\ IsNaN(z))     \* a signalling NaN wins even here
  ELSE IF FNaN(x) \/ FNaN(y) THEN IsNaN(z)
  ELSE IF FInf(y) THEN IF FMag(x) = One THEN IsOne(z)
                       ELSE IF (FMag(x) > One) = (y > 0) THEN Inf(z) ELSE z = PZero
  ELSE IF FZero(x) THEN z = (IF y > 0 THEN SZero(x < 0 /\ OddInt(y)) ELSE SInf(x < 0 /\ OddInt(y)))
  ELSE IF FInf(x) THEN z = (IF y > 0 THEN SInf(x < 0 /\ OddInt(y)) ELSE SZero(x < 0 /\ OddInt(y)))
  ELSE IF x < 0 /\ ~RIsInt(R32(y)) THEN IsNaN(z)
  ELSE FNear(z, RPow(R32(x), R32(y)))
(* y before x; on the x axis the sign of a zero y is that of the result, as in C *)
Atan2OK(y, x, z) ==
  IF FNaN(x) \/ FNaN(y) THEN IsNaN(z)
  ELSE IF FZero(y) THEN IF x < 0 THEN FNear(z, RMul(IF y < 0 THEN -1 ELSE 1, RPi)) ELSE z = y
  ELSE LET gy == IF y < 0 THEN -1 ELSE 1 IN
       IF FInf(y) THEN FNear(z, IF x = PInf THEN RDiv(Quarter(gy), 2) ELSE IF x = NInf THEN RMul(3, RDiv(Quarter(gy), 2)) ELSE Quarter(gy))
       ELSE IF x = PInf THEN z = SZero(y < 0)
       ELSE IF x = NInf THEN FNear(z, RMul(gy, RPi))
       ELSE FNear(z, RAtan2(R32(y), R32(x)))
ElementaryAllowed(op, a, z) ==
  CASE op = "exp"   -> Rel1(LAMBDA x, y : ExpOK(RExp, x, y), a[1], z)
    [] op = "exp2"  -> Rel1(LAMBDA x, y : ExpOK(RExp2, x, y), a[1], z)
    [] op = "log"   -> Rel1(LAMBDA x, y : LogOK(RLog, x, y), a[1], z)
    [] op = "log2"  -> Rel1(LAMBDA x, y : LogOK(RLog2, x, y), a[1], z)
    [] op = "sqrt"  -> Rel1(SqrtOK, a[1], z)
    [] op = "inversesqrt" -> Rel1(InvSqrtOK, a[1], z)
    [] op = "cbrt"  -> Rel1(CbrtOK, a[1], z)
    [] op = "pow"   -> Rel2(PowOK, a[1], a[2], z)
    [] op = "sin"   -> Rel1(LAMBDA x, y : PeriodicOK(RSin, x, y), a[1], z)
    [] op = "cos"   -> Rel1(LAMBDA x, y : PeriodicOK(RCos, x, y), a[1], z)
    [] op = "tan"   -> Rel1(LAMBDA x, y : PeriodicOK(RTan, x, y), a[1], z)
    [] op = "asin"  -> Rel1(LAMBDA x, y : ArcOK(RAsin, x, y), a[1], z)
    [] op = "acos"  -> Rel1(LAMBDA x, y : ArcOK(RAcos, x, y), a[1], z)
    [] op = "atan"  -> Rel1(AtanOK, a[1], z)
    [] op = "atan2" -> Rel2(Atan2OK, a[1], a[2], z)
    [] op = "sinh"  -> Rel1(LAMBDA x, y : OddOK(RSinh, x, y), a[1], z)
    [] op = "cosh"  -> Rel1(CoshOK, a[1], z)
    [] op = "tanh"  -> Rel1(TanhOK, a[1], z)
    [] op = "asinh" -> Rel1(LAMBDA x, y : OddOK(RAsinh, x, y), a[1], z)
    [] op = "acosh" -> Rel1(AcoshOK, a[1], z)
    [] op = "atanh" -> Rel1(AtanhOK, a[1], z)
    [] op = "radians" -> Rel1(LAMBDA x, y : OddOK(LAMBDA t : RMul(t, RDiv(RPi, 180)), x, y), a[1], z)
    [] op = "degrees" -> Rel1(LAMBDA x, y : OddOK(LAMBDA t : RMul(t, RDiv(180, RPi)), x, y), a[1], z)
=============================================================================
