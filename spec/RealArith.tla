------------------------------ MODULE RealArith ------------------------------
(* Arithmetic over the real numbers, IEEE binary32 values as real numbers, and *)
(* "balls": reals with an error bound.                                         *)
(*                                                                             *)
(* The definitions below are mathematical; TLC evaluates them through the Java *)
(* class RealArith (exact dyadic rationals, 200+ bit elementary functions).    *)
(* MC_Arith.tla checks the class against these definitions.                *)
EXTENDS Reals, Sequences

-------------------------------------------------------------------------------
(* Reals *)
RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b
RNeg(a)    == 0 - a
RAbs(a)    == IF a < 0 THEN 0 - a ELSE a
RSqrt(a)   == CHOOSE r \in Real : r >= 0 /\ r * r = a
RCbrt(a)   == CHOOSE r \in Real : r * r * r = a
RFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
RSgn(a)    == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
RLt(a, b)  == a < b
RLe(a, b)  == a <= b
REq(a, b)  == a = b
RPow2(k)   == 2 ^ k
RIsEven(n) == \E k \in Int : n = 2 * k
RPi        == CHOOSE p \in Real : TRUE  \* pi; characterised by RSin in MC_Arith
RExp(a)    == CHOOSE r \in Real : TRUE  \* lim (1 + a/n)^n
RLog(a)    == CHOOSE r \in Real : RExp(r) = a
RSin(a)    == CHOOSE r \in Real : TRUE  \* sum (-1)^k a^(2k+1) / (2k+1)!
RCos(a)    == CHOOSE r \in Real : TRUE  \* sum (-1)^k a^(2k) / (2k)!
RAtan(a)   == CHOOSE r \in Real : RSin(r) = a * RCos(r) /\ RAbs(r) < RPi / 2
(* the remaining elementary functions, in terms of these *)
RTan(a)    == RDiv(RSin(a), RCos(a))
RLog2(a)   == RDiv(RLog(a), RLog(2))
RExp2(a)   == RExp(RMul(a, RLog(2)))
RAtan2(y, x) == IF RSgn(x) = 0 THEN RMul(RSgn(y), RDiv(RPi, 2))
                ELSE IF RSgn(x) > 0 THEN RAtan(RDiv(y, x))
                ELSE IF RSgn(y) < 0 THEN RSub(RAtan(RDiv(y, x)), RPi)
                ELSE RAdd(RAtan(RDiv(y, x)), RPi)
RAsin(a)   == RAtan2(a, RSqrt(RMul(RSub(1, a), RAdd(1, a))))
RAcos(a)   == RAtan2(RSqrt(RMul(RSub(1, a), RAdd(1, a))), a)
RSinh(a)   == RDiv(RSub(RExp(a), RExp(RNeg(a))), 2)
RCosh(a)   == RDiv(RAdd(RExp(a), RExp(RNeg(a))), 2)
RTanh(a)   == RSub(1, RDiv(2, RAdd(1, RExp(RMul(2, a)))))
RAsinh(a)  == IF RSgn(a) < 0 THEN RNeg(RLog(RAdd(RNeg(a), RSqrt(RAdd(RMul(a, a), 1)))))
              ELSE RLog(RAdd(a, RSqrt(RAdd(RMul(a, a), 1))))
RAcosh(a)  == RLog(RAdd(a, RSqrt(RMul(RSub(a, 1), RAdd(a, 1)))))
RAtanh(a)  == RDiv(RLog(RDiv(RAdd(1, a), RSub(1, a))), 2)
RIsInt(a)  == REq(RFloor(a), a)
(* real powers of a positive base; integer powers of a negative one *)
RPow(a, b) == LET m == RExp(RMul(b, RLog(RAbs(a)))) IN IF RSgn(a) < 0 /\ ~RIsEven(b) THEN RNeg(m) ELSE m

-------------------------------------------------------------------------------
(* binary32: a float is its bit pattern, read as a signed 32-bit integer.      *)
(* R32 is the real value of a finite pattern; Round32 rounds a real to the     *)
(* nearest pattern, ties to even, overflowing to infinity.                     *)
PatSign(b) == IF b < 0 THEN -1 ELSE 1
PatMag(b)  == IF b < 0 THEN b + 2147483647 + 1 ELSE b
PatExp(b)  == PatMag(b) \div 8388608
PatFrac(b) == PatMag(b) % 8388608
R32(b) == PatSign(b) * (IF PatExp(b) = 0 THEN PatFrac(b) * 2 ^ (-149)
                        ELSE (8388608 + PatFrac(b)) * 2 ^ (PatExp(b) - 150))
Round32(a) ==
  LET pats == {b \in (-2147483647 - 1) .. 2147483647 : PatExp(b) < 255}
      dist(b) == RAbs(R32(b) - a)
      near == {b \in pats : \A c \in pats : dist(b) <= dist(c)}
  IN IF RAbs(a) >= (2 - 2 ^ (-24)) * 2 ^ 127
     THEN IF a < 0 THEN -8388608 ELSE 2139095040
     ELSE CHOOSE b \in near : /\ \A c \in near : PatFrac(b) % 2 = 0 \/ R32(c) = R32(b)
                              /\ (a < 0) <=> (b < 0)
FitsInt32(a) == a \in (-2147483647 - 1) .. 2147483647
RToInt(a)    == CHOOSE n \in Int : n = a

-------------------------------------------------------------------------------
(* Balls.  A ball is a real v with a bound e on the error that a single-       *)
(* precision evaluation may accumulate; BTop constrains nothing (used where an *)
(* intermediate may overflow, a divisor may be zero, or a domain is left).     *)
(* Every operation adds the rounding error of its own result, measured against *)
(* the magnitudes of its operands, so that any order of evaluation of a sum is *)
(* admitted.  BClose multiplies the bound by the safety factor K = 8.          *)
U   == 2 ^ (-24)
ETA == 2 ^ (-149)
KSafe == 8
Ball(v, e) == [v |-> v, e |-> e]
BTop    == [v |-> 0, e |-> Infinity]
B32(b)  == IF PatExp(b) = 255 THEN BTop ELSE Ball(R32(b), 0)
BReal(a) == Ball(a, 0)
BMid(x) == x.v
BIsTop(x) == x.e = Infinity
BIsExact(x) == x.e = 0
Mag(x) == RAbs(x.v) + x.e
Chk(x) == IF Mag(x) >= 2 ^ 126 THEN BTop ELSE x
BAdd(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop ELSE Chk(Ball(x.v + y.v, x.e + y.e + U * (Mag(x) + Mag(y))))
BSub(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop ELSE Chk(Ball(x.v - y.v, x.e + y.e + U * (Mag(x) + Mag(y))))
BMul(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop
              ELSE Chk(Ball(x.v * y.v, RAbs(x.v) * y.e + RAbs(y.v) * x.e + x.e * y.e + U * RAbs(x.v * y.v) + ETA))
BDiv(x, y) == IF BIsTop(x) \/ BIsTop(y) \/ RAbs(y.v) <= KSafe * y.e \/ y.v = 0 THEN BTop
              ELSE Chk(Ball(x.v / y.v, (x.e + RAbs(x.v / y.v) * y.e) / (RAbs(y.v) - y.e) + 2 * U * RAbs(x.v / y.v) + ETA))
BNeg(x) == IF BIsTop(x) THEN BTop ELSE Ball(0 - x.v, x.e)
BAbs(x) == IF BIsTop(x) THEN BTop ELSE Ball(RAbs(x.v), x.e)
BMin(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop ELSE Ball(IF x.v <= y.v THEN x.v ELSE y.v, IF x.e >= y.e THEN x.e ELSE y.e)
BMax(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop ELSE Ball(IF x.v >= y.v THEN x.v ELSE y.v, IF x.e >= y.e THEN x.e ELSE y.e)
BWiden(x, r) == IF BIsTop(x) THEN BTop ELSE Chk(Ball(x.v, x.e + RAbs(r)))
(* the image of a ball under a function, plus one rounding of the result *)
Img(x, f(_)) == IF BIsTop(x) THEN BTop
                ELSE Chk(Ball(f(x.v), (CHOOSE d \in Real : \A t \in Real : RAbs(t - x.v) <= x.e => RAbs(f(t) - f(x.v)) <= d)
                                      + U * RAbs(f(x.v)) + ETA))
BSqrt(x)  == IF x.v < 2 * KSafe * x.e THEN BTop ELSE Img(x, RSqrt)
BRoot(x)  == IF x.v < 2 * KSafe * x.e THEN Ball(RSqrt(RAbs(x.v)), RSqrt(RAbs(x.v) + KSafe * x.e)) ELSE Img(x, RSqrt)
BSin(x)   == Img(x, RSin)
BCos(x)   == Img(x, RCos)
BTan(x)   == Img(x, LAMBDA t : RSin(t) / RCos(t))
BAtan(x)  == Img(x, RAtan)
BAsin(x)  == Img(x, LAMBDA t : RAtan(t / RSqrt(1 - t * t)))
BAcos(x)  == Img(x, LAMBDA t : RPi / 2 - RAtan(t / RSqrt(1 - t * t)))
BExp(x)   == Img(x, RExp)
BLog(x)   == IF x.v < 2 * KSafe * x.e THEN BTop ELSE Img(x, RLog)
BPow(x, y) == IF BIsTop(x) \/ BIsTop(y) THEN BTop
              ELSE IF y.v = 0 THEN BReal(1)
              ELSE IF x.v > 0 THEN BExp(BMul(y, BLog(x)))   \* with the error of the exponent propagated
              ELSE BTop   \* and the exact power for a negative base with a small integer exponent
BAtan2(y, x) == IF x.v > 0 THEN BAtan(BDiv(y, x))
                ELSE IF y.v >= 0 THEN BAdd(BAtan(BDiv(y, x)), BReal(RPi))
                ELSE BSub(BAtan(BDiv(y, x)), BReal(RPi))
(* 1, -1: certainly positive, negative; 0: zero is within reach; 2: unconstrained *)
BSign(x) == IF BIsTop(x) THEN 2 ELSE IF x.v > KSafe * x.e THEN 1 ELSE IF x.v < 0 - KSafe * x.e THEN -1 ELSE 0
(* the float with pattern b is an admissible single-precision evaluation of x *)
BClose(b, x) == \/ BIsTop(x)
                \/ /\ PatExp(b) < 255
                   /\ \/ x.e = 0 /\ (b = Round32(x.v) \/ R32(b) = x.v)
                      \/ x.e > 0 /\ RAbs(R32(b) - x.v) <= KSafe * x.e + ETA
BWithin(x, y, tol) == BIsTop(x) \/ BIsTop(y) \/ RAbs(x.v - y.v) <= tol + KSafe * (x.e + y.e)
BRound(x) == Round32(x.v)
=============================================================================
