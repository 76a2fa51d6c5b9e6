------------------------------ MODULE Binary32 ------------------------------
(* IEEE 754 binary32 scalars.  A float is its 32-bit pattern read as a signed *)
(* integer; all NaNs are represented by the one pattern QNaN.                 *)
EXTENDS RealArith, Integers

QNaN   == 2143289344
PInf   == 2139095040
NInf   == -8388608
PZero  == 0
NZero  == -2147483647 - 1
One    == 1065353216
MOne   == -1082130432

FMag(a)    == IF a < 0 THEN a + 2147483647 + 1 ELSE a
FNaN(a)    == FMag(a) > PInf
FInf(a)    == FMag(a) = PInf
FFin(a)    == FMag(a) < PInf
FZero(a)   == FMag(a) = 0
FNegSign(a) == a < 0
FNeg(a)    == IF FNaN(a) THEN QNaN ELSE IF a < 0 THEN a + 2147483647 + 1 ELSE (a - 2147483647) - 1
FAbs(a)    == IF FNaN(a) THEN QNaN ELSE FMag(a)
Canon(a)   == IF FNaN(a) THEN QNaN ELSE a
SZero(neg) == IF neg THEN NZero ELSE PZero
SInf(neg)  == IF neg THEN NInf ELSE PInf
(* rounding of an exact, possibly zero, real result whose zero has sign neg *)
Rnd(r, neg) == IF REq(r, 0) THEN SZero(neg)
               ELSE LET b == Round32(r) IN IF FZero(b) THEN SZero(RLt(r, 0)) ELSE b

FAdd(a, b) ==
  IF FNaN(a) \/ FNaN(b) THEN QNaN
  ELSE IF FInf(a) THEN IF FInf(b) /\ a # b THEN QNaN ELSE a
  ELSE IF FInf(b) THEN b
  ELSE IF FZero(a) /\ FZero(b) THEN SZero(a < 0 /\ b < 0)
  ELSE Rnd(RAdd(R32(a), R32(b)), FALSE)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
  IF FNaN(a) \/ FNaN(b) THEN QNaN
  ELSE LET neg == (a < 0) # (b < 0) IN
       IF FInf(a) \/ FInf(b) THEN IF FZero(a) \/ FZero(b) THEN QNaN ELSE SInf(neg)
       ELSE Rnd(RMul(R32(a), R32(b)), neg)
FDiv(a, b) ==
  IF FNaN(a) \/ FNaN(b) THEN QNaN
  ELSE LET neg == (a < 0) # (b < 0) IN
       IF FInf(a) THEN IF FInf(b) THEN QNaN ELSE SInf(neg)
       ELSE IF FInf(b) THEN SZero(neg)
       ELSE IF FZero(b) THEN IF FZero(a) THEN QNaN ELSE SInf(neg)
       ELSE Rnd(RDiv(R32(a), R32(b)), neg)
(* fused multiply-add: one rounding *)
FFma(a, b, c) ==
  IF FNaN(a) \/ FNaN(b) \/ FNaN(c) THEN QNaN
  ELSE LET neg == (a < 0) # (b < 0) IN
       IF FInf(a) \/ FInf(b)
       THEN IF FZero(a) \/ FZero(b) THEN QNaN
            ELSE IF FInf(c) /\ (c < 0) # neg THEN QNaN ELSE SInf(neg)
       ELSE IF FInf(c) THEN c
       ELSE IF (FZero(a) \/ FZero(b)) /\ FZero(c) THEN SZero(neg /\ c < 0)
       ELSE Rnd(RAdd(RMul(R32(a), R32(b)), R32(c)), FALSE)
FSqrt(a) == IF FNaN(a) THEN QNaN ELSE IF FZero(a) THEN a ELSE IF a < 0 THEN QNaN
            ELSE IF FInf(a) THEN a ELSE Rnd(RSqrt(R32(a)), FALSE)

(* IEEE comparisons: signed zeros are equal, NaN is unordered *)
OrdKey(a) == IF a < 0 THEN 0 - FMag(a) ELSE a
FEq(a, b) == ~FNaN(a) /\ ~FNaN(b) /\ OrdKey(a) = OrdKey(b)
FLt(a, b) == ~FNaN(a) /\ ~FNaN(b) /\ OrdKey(a) < OrdKey(b)
FLe(a, b) == ~FNaN(a) /\ ~FNaN(b) /\ OrdKey(a) <= OrdKey(b)

(* integral rounding; an exact zero keeps the sign of the argument *)
Integral(a, n) == IF ~FFin(a) THEN Canon(a) ELSE Rnd(n, a < 0)
FFloor(a) == IF ~FFin(a) THEN Canon(a) ELSE Rnd(RFloor(R32(a)), a < 0)
FCeil(a)  == IF ~FFin(a) THEN Canon(a) ELSE Rnd(RNeg(RFloor(RNeg(R32(a)))), a < 0)
FTrunc(a) == IF ~FFin(a) THEN Canon(a) ELSE IF a < 0 THEN FCeil(a) ELSE FFloor(a)
Half == RDiv(1, 2)
(* nearest integer, halves away from zero *)
FRoundAway(a) ==
  IF ~FFin(a) THEN Canon(a)
  ELSE LET m == RFloor(RAdd(RAbs(R32(a)), Half)) IN Rnd(IF a < 0 THEN RNeg(m) ELSE m, a < 0)
(* nearest integer, halves to even *)
FRoundEven(a) ==
  IF ~FFin(a) THEN Canon(a)
  ELSE LET x == RAbs(R32(a))
           n == RFloor(x)
           d == RSub(x, n)
           m == IF RLt(d, Half) THEN n ELSE IF RLt(Half, d) THEN RAdd(n, 1)
                ELSE IF RIsEven(n) THEN n ELSE RAdd(n, 1)
       IN Rnd(IF a < 0 THEN RNeg(m) ELSE m, a < 0)
=============================================================================
