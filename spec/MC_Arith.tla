------------------------------ MODULE MC_Arith ------------------------------
(* The executable arithmetic against its definitions.  Every state is one     *)
(* choice of operands; the invariants are the properties that determine the   *)
(* operators: rational arithmetic against integers, binary32 against the      *)
(* format, roundings by their neighbours, elementary functions by functional  *)
(* equations and bounds near zero, bit operations by definition, balls by the *)
(* points they must and must not admit.                                       *)
EXTENDS Binary32, Bits32, TLC

VARIABLE s
Q(x) == RDiv(x[1], x[2])
Nums == -5..5
Dens == {1, 2, 3, 7}
Rats == {<<n, d>> : n \in Nums, d \in Dens}
Close(x, y) == RLe(RAbs(RSub(x, y)), RMul(RPow2(-200), RAdd(RAbs(x), RAdd(RAbs(y), RPow2(-20)))))
(* finite patterns: zero, subnormals, powers of two, full significands, integers, the largest *)
Pats == {0, 1, 2, 3, 8388606, 8388607, 8388608, 8388609, 16777215, 16777216, 25165825, 1065353215, 1065353216, 1065353217, 1073741823,
         1073741824, 1077936128, 1084227584, 1092616192, 1325400063, 1325400064, 1266679807, 1258291199, 1258291200, 2130706431, 2130706432, 2139095037, 2139095038, 2139095039,
         855638016, 864026624, 1056964608, 1048576000, 1051372203, 1078530011, 1036831949}
NegP(b) == IF b < 0 THEN b + 2147483647 + 1 ELSE (b - 2147483647) - 1
Signed == Pats \cup {NegP(b) : b \in Pats}
Words == {-2147483647 - 1, -2147483647, -65536, -256, -129, -128, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 255, 65535, 65536,
          1431655765, -1431655766, 1073741823, 1073741824, 2147483646, 2147483647}

Init ==
  \/ \E a, b \in Rats : s = <<"rational", a, b>>
  \/ \E a, b \in Rats : s = <<"elementary", a, b>>
  \/ \E k \in 4..120, g \in {1, -1} : s = <<"small", k, g>>
  \/ \E n \in {1, 2, 3, 10, 1000, 1048577, 1000000000}, b \in Rats : s = <<"period", n, b>>
  \/ \E b \in Signed : s = <<"format", b, b>>
  \/ \E b \in Signed, k \in 0..16 : s = <<"rounding", b, k>>
  \/ \E x, y \in Words : s = <<"bits", x, y>>
  \/ \E a, b \in Signed : s = <<"ball", a, b>>
  \/ \E n \in 0..5000 : s = <<"sqrt", n, n>>
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

Rational ==
  s[1] = "rational" =>
    LET a == s[2] b == s[3] x == Q(a) y == Q(b) IN
    /\ Close(RAdd(x, y), RDiv(a[1] * b[2] + b[1] * a[2], a[2] * b[2]))
    /\ Close(RSub(x, y), RDiv(a[1] * b[2] - b[1] * a[2], a[2] * b[2]))
    /\ Close(RMul(x, y), RDiv(a[1] * b[1], a[2] * b[2]))
    /\ b[1] # 0 => Close(RDiv(x, y), IF b[1] > 0 THEN RDiv(a[1] * b[2], a[2] * b[1]) ELSE RDiv(0 - a[1] * b[2], 0 - a[2] * b[1]))
    /\ RLt(x, y) <=> a[1] * b[2] < b[1] * a[2]
    /\ RLe(x, y) <=> a[1] * b[2] <= b[1] * a[2]
    /\ REq(x, y) <=> a[1] * b[2] = b[1] * a[2]
    /\ RToInt(RFloor(x)) = a[1] \div a[2]
    /\ RSgn(x) = (IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1)
    /\ REq(RNeg(x), RSub(0, x)) /\ REq(RAbs(x), IF a[1] < 0 THEN RNeg(x) ELSE x)
    /\ a[2] = 1 => (RIsEven(x) <=> a[1] % 2 = 0)
    /\ LET c == RCbrt(x) IN Close(RMul(c, RMul(c, c)), x)
    /\ LET r == RSqrt(RAbs(x)) IN Close(RMul(r, r), RAbs(x)) /\ RLe(0, r)
    /\ REq(RPow2(a[1] + b[1]), RMul(RPow2(a[1]), RPow2(b[1]))) /\ REq(RPow2(1), RAdd(2, 0))
Roots == s[1] = "sqrt" => /\ REq(RSqrt(s[2] * s[2]), RAdd(s[2], 0))
                          /\ LET r == RSqrt(s[2]) IN Close(RMul(r, r), RAdd(s[2], 0))
                          /\ FitsInt32(RAdd(RMul(s[2], 1000000), -2147483647)) <=> RLe(RMul(s[2], 1000000), RAdd(RMul(2, 2147483647), 0))
Functional ==
  s[1] = "elementary" =>
    LET x == Q(s[2]) y == Q(s[3]) IN
    /\ Close(RAdd(RMul(RSin(x), RSin(x)), RMul(RCos(x), RCos(x))), RAdd(1, 0))
    /\ \/ Close(RSin(RAdd(x, y)), RAdd(RMul(RSin(x), RCos(y)), RMul(RCos(x), RSin(y))))
       \/ RLe(RAbs(RSin(RAdd(x, y))), RPow2(-180))
    /\ Close(RAdd(1, RCos(RAdd(x, y))), RAdd(1, RSub(RMul(RCos(x), RCos(y)), RMul(RSin(x), RSin(y)))))
    /\ Close(RExp(RAdd(x, y)), RMul(RExp(x), RExp(y)))
    /\ \/ Close(RLog(RExp(x)), x)
       \/ RLe(RAbs(x), RPow2(-180))
    /\ LET t == RAtan(x) IN Close(RSin(t), RMul(x, RCos(t))) /\ RLt(RAbs(t), RDiv(RPi, 2)) /\ RLt(0, RCos(t))
(* the functions defined from these *)
Derived ==
  s[1] = "elementary" =>
    LET x == Q(s[2]) y == Q(s[3]) sh == RSinh(x) ch == RCosh(x) th == RTanh(x) r == RSqrt(RAdd(RMul(x, x), RMul(y, y))) IN
    /\ Close(RSub(RMul(ch, ch), RMul(sh, sh)), RAdd(1, 0)) \/ RLe(RPow2(20), ch)
    /\ Close(RMul(th, ch), sh) /\ Close(RAdd(sh, ch), RExp(x))
    /\ Close(RAsinh(sh), x) /\ (RSgn(x) # 0 => Close(RAcosh(ch), RAbs(x))) /\ (RLe(RAbs(x), 2) => Close(RAtanh(th), x))
    /\ Close(RTan(RAtan(x)), x)
    /\ RLe(RAbs(x), 1) => /\ Close(RSin(RAsin(x)), x) /\ RLe(RAbs(RAsin(x)), RDiv(RPi, 2))
                          /\ Close(RAdd(1, RCos(RAcos(x))), RAdd(1, x)) /\ RLe(0, RAcos(x)) /\ RLe(RAcos(x), RPi)
    /\ (RSgn(x) # 0 \/ RSgn(y) # 0) =>
         LET t == RAtan2(y, x) IN /\ Close(RAdd(1, RMul(r, RCos(t))), RAdd(1, x)) /\ Close(RAdd(1, RMul(r, RSin(t))), RAdd(1, y))
                                  /\ RLt(RNeg(RPi), t) /\ RLe(t, RPi)
    /\ RSgn(x) > 0 => /\ Close(RPow(x, RAdd(y, 1)), RMul(x, RPow(x, y))) /\ Close(RPow(x, 2), RMul(x, x)) /\ Close(RPow(x, RDiv(1, 2)), RSqrt(x))
                      /\ Close(RExp2(RLog2(x)), x)
    /\ Close(RExp2(RAdd(x, 3)), RMul(8, RExp2(x))) /\ Close(RLog2(RExp2(y)), y)
    /\ RSgn(x) < 0 => Close(RPow(x, 3), RMul(x, RMul(x, x))) /\ Close(RPow(x, -2), RDiv(1, RMul(x, x)))
    /\ RIsInt(x) <=> s[2][1] % s[2][2] = 0
Small ==      \* the functions are the ones with these derivatives at zero
  s[1] = "small" =>
    LET t == RMul(s[3], RPow2(0 - s[2])) t2 == RMul(t, t) e == RSub(RExp(t), RAdd(1, t)) IN
    /\ RLe(RAbs(RSub(RSin(t), t)), RMul(t2, RAbs(t)))
    /\ RLe(RAbs(RSub(1, RCos(t))), t2)
    /\ RLe(RAbs(RSub(RAtan(t), t)), RMul(t2, RAbs(t)))
    /\ RLe(RNeg(RPow2(-240)), e) /\ RLe(e, RAdd(t2, RPow2(-240)))
    /\ RLe(RAbs(RSub(RLog(RAdd(1, t)), t)), t2)
    /\ \A d \in {RSub(RSinh(t), t), RSub(RTanh(t), t), RSub(RAsinh(t), t), RSub(RAtanh(t), t), RSub(RAsin(t), t)} : RLe(RAbs(d), RAdd(RMul(t2, RAbs(t)), RPow2(-240)))
    /\ RLt(3, RPi) /\ RLt(RPi, 4) /\ RLe(RAbs(RSin(RPi)), RPow2(-240)) /\ REq(RSin(0), RAdd(0, 0)) /\ REq(RExp(0), RAdd(1, 0))
Period == s[1] = "period" =>
  LET x == Q(s[3]) y == RAdd(x, RMul(RMul(2, s[2]), RPi)) IN RLe(RAbs(RSub(RSin(x), RSin(y))), RPow2(-180)) /\ RLe(RAbs(RSub(RCos(x), RCos(y))), RPow2(-180))
-------------------------------------------------------------------------------
DefR32(b) == RMul(PatSign(b), IF PatExp(b) = 0 THEN RMul(PatFrac(b), RPow2(-149)) ELSE RMul(8388608 + PatFrac(b), RPow2(PatExp(b) - 150)))
Format == s[1] = "format" =>
  LET b == s[2] IN /\ REq(R32(b), DefR32(b))
                   /\ b # NZero => Round32(R32(b)) = b
                   /\ Canon(b) = b /\ FFin(b)
                   /\ FitsInt32(R32(b)) <=> IF REq(R32(b), RSub(-2147483647, 1)) THEN TRUE
                                            ELSE REq(RFloor(R32(b)), R32(b)) /\ RLe(RAbs(R32(b)), 2147483647)
(* k sixteenths of the way from b to the next pattern away from zero *)
Max32 == 2139095039
Rounding == s[1] = "rounding" =>
  LET b == s[2] k == s[3] g == PatSign(b)
      lo == R32(b)
      hi == IF FMag(b) = Max32 THEN RMul(g, RPow2(128)) ELSE R32(b + 1)     \* the next pattern of the same sign
      r == Round32(RAdd(lo, RMul(RDiv(k, 16), RSub(hi, lo))))
      up == IF FMag(b) = Max32 THEN (IF g = 1 THEN PInf ELSE NInf) ELSE b + 1
  IN b = NZero \/ r = (IF k < 8 THEN b ELSE IF k > 8 THEN up ELSE IF b % 2 = 0 THEN b ELSE up)
Bits == s[1] = "bits" => /\ And32(s[2], s[3]) = AndW(s[2], s[3], 32)
                         /\ Or32(s[2], s[3]) = OrW(s[2], s[3], 32)
                         /\ Xor32(s[2], s[3]) = XorW(s[2], s[3], 32)
-------------------------------------------------------------------------------
(* balls: the correctly rounded result and every point within the bound are admitted; a result that is off is not *)
Points(v, e) == <<RSub(v, e), v, RAdd(v, e)>>
Tame(b) == FZero(b) \/ (FMag(b) >= 855638016 /\ FMag(b) <= 1266679807)
Off(b) == IF b < 0 THEN b + 200 ELSE IF FMag(b) > 1000 THEN b - 200 ELSE b + 200       \* 200 units in the last place away
Accepts(b, x) == BIsTop(x) \/ BClose(b, x)
BallArith == s[1] = "ball" =>
  LET a == s[2] b == s[3] x == B32(a) y == B32(b) IN
  /\ Accepts(FAdd(a, b), BAdd(x, y)) /\ Accepts(FSub(a, b), BSub(x, y)) /\ Accepts(FMul(a, b), BMul(x, y))
  /\ ~FZero(b) => Accepts(FDiv(a, b), BDiv(x, y))
  /\ Accepts(FSqrt(FAbs(a)), BSqrt(BAbs(x)))
  /\ Accepts(FAdd(FMul(a, b), FMul(a, a)), BAdd(BMul(x, y), BMul(x, x)))
  /\ (Tame(a) /\ Tame(b) /\ ~FZero(a) /\ ~FZero(b)) =>
       /\ ~BClose(Off(FMul(a, b)), BMul(x, y)) /\ ~BClose(Off(FDiv(a, b)), BDiv(x, y)) /\ ~BClose(Off(FSqrt(FAbs(a))), BSqrt(BAbs(x)))
       /\ (a < 0) = (b < 0) => ~BClose(Off(FAdd(a, b)), BAdd(x, y))
       /\ ~BClose(FNeg(FMul(a, b)), BMul(x, y)) /\ ~BClose(QNaN, BMul(x, y)) /\ ~BClose(PInf, BMul(x, y))
       (* operands known to a relative error of 2^-20, five points of each *)
       /\ LET ea == RMul(RAbs(R32(a)), RPow2(-20)) eb == RMul(RAbs(R32(b)), RPow2(-20)) xe == BWiden(x, ea) ye == BWiden(y, eb)
              In(z, t) == BWithin(BReal(t), z, 0)
          IN \A i, j \in 1..3 : LET p == Points(R32(a), ea)[i] q == Points(R32(b), eb)[j] IN
               /\ In(BAdd(xe, ye), RAdd(p, q)) /\ In(BSub(xe, ye), RSub(p, q)) /\ In(BMul(xe, ye), RMul(p, q)) /\ In(BDiv(xe, ye), RDiv(p, q))
               /\ In(BSqrt(BAbs(xe)), RSqrt(RAbs(p)))
               /\ (RLe(RAbs(R32(a)), 64) => In(BSin(xe), RSin(p)) /\ In(BCos(xe), RCos(p)) /\ In(BExp(xe), RExp(p)) /\ In(BAtan(xe), RAtan(p)))
               /\ In(BLog(BAbs(xe)), RLog(RAbs(p)))
               /\ In(BNeg(xe), RNeg(p)) /\ In(BAbs(xe), RAbs(p))
               /\ In(BMin(xe, ye), IF RLt(q, p) THEN q ELSE p) /\ In(BMax(xe, ye), IF RLt(q, p) THEN p ELSE q)
  /\ BSign(x) = (IF FZero(a) THEN 0 ELSE IF a < 0 THEN -1 ELSE 1)
  /\ BIsExact(x) /\ REq(BMid(x), R32(a)) /\ BRound(x) = Round32(R32(a))
=============================================================================
