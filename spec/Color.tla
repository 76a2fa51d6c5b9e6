-------------------------------- MODULE Color --------------------------------
(* sRGB transfer curves (IEC 61966-2-1), per colour channel.                   *)
EXTENDS LinAlg

Dec(n, d) == BReal(RDiv(n, d))
(* a decimal constant that single precision has to round *)
KC(n, d) == BWiden(Dec(n, d), RMul(UR, RDiv(n, d)))
Clamp01(x) == IF FLt(x, PZero) THEN PZero ELSE IF FLt(One, x) THEN One ELSE x
EncLow(c) == BMul(B32(c), KC(1292, 100))
EncHigh(c, g) == BSub(BMul(BPow(B32(c), BDiv(BReal(1), B32(g))), KC(1055, 1000)), KC(55, 1000))
DecLow(c) == BMul(B32(c), KC(100, 1292))
DecHigh(c, g) == BPow(BMul(BAdd(B32(c), KC(55, 1000)), KC(1000, 1055)), B32(g))
(* which side of a threshold t, a decimal that is no float *)
Above(c, t) == RLt(t, R32(c))
Below(c, t) == RLt(R32(c), t)
EncT == RDiv(31308, 10000000)
DecT == RDiv(4045, 100000)
GammaOK(g) == FLe(1036831949, g) /\ FLe(g, 1092616192)     \* 0.1 .. 10
EncodeOK(c0, g, z) ==
  (FFin(c0) /\ GammaOK(g)) => LET c == Clamp01(c0) IN
     \/ Below(c, EncT) /\ BClose(z, EncLow(c))
     \/ Above(c, EncT) /\ BClose(z, EncHigh(c, g))
DecodeOK(c, g, z) ==
  (FFin(c) /\ GammaOK(g)) => \/ Below(c, DecT) /\ BClose(z, DecLow(c))
                             \/ Above(c, DecT) /\ BClose(z, DecHigh(c, g))
(* the cited approximation for the standard curve *)
ApproxBall(c) ==
  LET s1 == BSqrt(B32(c)) s2 == BSqrt(s1) s3 == BSqrt(s2) m == 1000000000
  IN BSub(BSub(BAdd(BMul(KC(662002687, m), s1), BMul(KC(684122060, m), s2)), BMul(KC(323583601, m), s3)), BMul(Dec(22541147, m), B32(c)))
G24 == 1075419546          \* 2.4
StdBall(c) == IF RLt(R32(c), EncT) THEN EncLow(c) ELSE EncHigh(c, G24)
ApproxOK(c, z) ==
  (FFin(c) /\ (FZero(c) \/ FLt(PZero, c))) =>
    /\ BClose(z, ApproxBall(c))
    /\ (RLe(RDiv(2, 1000), R32(c)) /\ FLe(c, One)) => BWithin(B32(z), StdBall(c), RDiv(2, 1000))
RoundOK(c, z) == (FFin(c) /\ FLe(PZero, c) /\ FLe(c, One)) => FFin(z) /\ RNear(R32(z), R32(c), RAdd(RPow2(-17), RMul(RPow2(-14), R32(c))))
(* three colour channels, and the alpha channel exactly *)
Channels(Ok(_,_), c, z) == Len(z) = Len(c) /\ (\A i \in 1..3 : Ok(c[i], z[i])) /\ (Len(c) = 4 => z[4] = Canon(c[4]))
ColorAllowed(op, a, z) ==
  CASE op = "toSRGBg"   -> Channels(LAMBDA c, y : EncodeOK(c, a[2][1], y), a[1], z)
    [] op = "toLinearg" -> Channels(LAMBDA c, y : DecodeOK(c, a[2][1], y), a[1], z)
    [] op = "toLinear"  -> Channels(LAMBDA c, y : DecodeOK(c, G24, y), a[1], z)
    [] op = "toSRGB"    -> Channels(ApproxOK, a[1], z)
    [] op \in {"round", "round2"} -> Channels(RoundOK, a[1], z)
=============================================================================
