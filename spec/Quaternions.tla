---------------------------- MODULE Quaternions ----------------------------
(* Quaternions (x, y, z, w): Hamilton algebra, rotation, conversions and      *)
(* interpolation.                                                             *)
EXTENDS Transform

(* Hamilton product of real quaternions *)
RHam(a, b) ==
  <<RAdd(RAdd(RMul(a[4], b[1]), RMul(a[1], b[4])), RSub(RMul(a[2], b[3]), RMul(a[3], b[2]))),
    RAdd(RAdd(RMul(a[4], b[2]), RMul(a[2], b[4])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3]))),
    RAdd(RAdd(RMul(a[4], b[3]), RMul(a[3], b[4])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))),
    RSub(RMul(a[4], b[4]), RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3])))>>
(* of balls; a product may be evaluated in a factored form, so that every component sees the whole norm *)
Mids(a) == Map1(BMid, a)
BHam(a, b) ==
  LET p == RHam(Mids(a), Mids(b)) w == RMul(RNorm1(Mids(a)), RNorm1(Mids(b)))
  IN IF \E i \in 1..4 : BIsTop(a[i]) \/ BIsTop(b[i]) THEN <<BTop, BTop, BTop, BTop>>
     ELSE LET q == <<VDot(a, <<b[4], b[3], BNeg(b[2]), b[1]>>), VDot(a, <<BNeg(b[3]), b[4], b[1], b[2]>>),
                     VDot(a, <<b[2], BNeg(b[1]), b[4], b[3]>>), VDot(a, <<BNeg(b[1]), BNeg(b[2]), BNeg(b[3]), b[4]>>)>>
          IN Map1(LAMBDA x : BWiden(x, RMul(RMul(4, UR), w)), q)
RConj(q) == <<RNeg(q[1]), RNeg(q[2]), RNeg(q[3]), q[4]>>
NormErr(q) == RAbs(RSub(RDot(Reals_(q), Reals_(q)), 1))
Unitary(q) == Fin(q) /\ UnitQ(q, RPow2(-20))
(* R v for the rotation of a unit quaternion; formulas that agree for exactly unit ones may differ by its norm error *)
RMatVec3(R, v) == Tup([r \in 1..3 |-> RAdd(RAdd(RMul(R[r], v[1]), RMul(R[3 + r], v[2])), RMul(R[6 + r], v[3]))])
RotErr(q, v) == RMul(RAdd(RMul(8, NormErr(q)), RMul(64, UR)), RNorm1(v))
RotateOK(q, v, z) == Fin(z) /\ RNearVec(Reals_(z), RMatVec3(RotOf(q), v), RotErr(Map1(Round32, q), v))
-------------------------------------------------------------------------------
(* angle in [0, pi] of a cosine that may have left [-1, 1] by a rounding *)
AcosIn(c) == IF RLe(1, c) THEN RAdd(0, 0) ELSE IF RLe(c, -1) THEN RPi ELSE RAcos(c)
(* spherical interpolation in reals towards y (already on the chosen side) *)
SlerpR(x, y, c, t) ==
  IF RLt(RSub(1, RPow2(-30)), c) THEN Tup([i \in 1..4 |-> RAdd(x[i], RMul(t, RSub(y[i], x[i])))])
  ELSE LET th == AcosIn(c) s == RSin(th)
           wa == RDiv(RSin(RMul(RSub(1, t), th)), s) wb == RDiv(RSin(RMul(t, th)), s)
       IN Tup([i \in 1..4 |-> RAdd(RMul(wa, x[i]), RMul(wb, y[i]))])
SlerpOK(x, y, t, z) ==
  (Unitary(x) /\ Unitary(y) /\ FLe(PZero, t) /\ FLe(t, One)) =>
    LET rx == Reals_(x) ry == Reals_(y) c == RDot(rx, ry)
        tol == RPow2(-16)
        fwd == SlerpR(rx, ry, c, R32(t)) bwd == SlerpR(rx, RScale(-1, ry), RNeg(c), R32(t))
    IN /\ Fin(z)
       /\ \/ RLt(RNeg(RPow2(-20)), c) /\ RNearVec(Reals_(z), fwd, tol)
          \/ RLt(c, RPow2(-20)) /\ RNearVec(Reals_(z), bwd, tol)
LerpBall(x, y, t) == Tup([i \in 1..4 |-> BWiden(BAdd(BMul(B32(x[i]), BSub(BReal(1), B32(t))), BMul(B32(y[i]), B32(t))),
                                               RMul(RMul(2, UR), RAdd(RAbs(R32(x[i])), RAbs(R32(y[i])))))])
InUnit(t) == FLe(PZero, t) /\ FLe(t, One)
-------------------------------------------------------------------------------
(* rotation matrices: departure from orthonormality of the columns *)
RECURSIVE RMaxOf(_)
RMaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == RMaxOf(Tail(s)) IN IF RLt(m, s[1]) THEN s[1] ELSE m
OrthErr(R) == RMaxOf(Tup([k \in 1..9 |-> LET i == (k - 1) \div 3 j == (k - 1) % 3 IN
                 RAbs(RSub(RDot(SubSeq(R, 3 * i + 1, 3 * i + 3), SubSeq(R, 3 * j + 1, 3 * j + 3)), IF i = j THEN 1 ELSE 0))]))
IsRotation(R) == RLe(OrthErr(R), RPow2(-10)) /\ RLt(0, Det3(SubSeq(R, 1, 3), SubSeq(R, 4, 6), SubSeq(R, 7, 9)))
Upper3(m) == IF Len(m) = 9 THEN m ELSE <<m[1], m[2], m[3], m[5], m[6], m[7], m[9], m[10], m[11]>>
CastOK(m, z) ==
  Moderate(Upper3(m)) /\ IsRotation(Reals_(Upper3(m))) =>
    LET R == Reals_(Upper3(m)) tol == RAdd(RPow2(-18), RMul(8, OrthErr(R)))
    IN Fin(z) /\ UnitQ(z, RMul(4, tol)) /\ RNearVec(RotOf(Reals_(z)), R, tol)
ToMatOK(q, m3) == LET q_ == Reals_(q) IN
  Fin(m3) /\ RNearVec(Reals_(m3), RotOf(q_), RAdd(RMul(64, UR), RMul(8, NormErr(q))))
(* the same rotation: equal up to sign *)
SameRot(x, z, tol) == RNearVec(Reals_(x), Reals_(z), tol) \/ RNearVec(Reals_(x), RScale(-1, Reals_(z)), tol)
(* arguments of the Euler angles of a quaternion; unit quaternions may use either of two equal forms *)
Euler(q) ==
  LET b == Balls(q) x == b[1] y == b[2] z == b[3] w == b[4]
      e == RMul(4, NormErr(q))
      p2(u, v, s, t, sg) == BMul(BReal(2), IF sg = 1 THEN BAdd(BMul(u, v), BMul(s, t)) ELSE BSub(BMul(u, v), BMul(s, t)))
      sq(u) == BMul(u, u)
  IN <<BAtan2(p2(y, z, w, x, 1), BWiden(BAdd(BSub(BSub(sq(w), sq(x)), sq(y)), sq(z)), e)),
       BAsin(BWiden(p2(w, y, x, z, -1), e)),
       BAtan2(p2(x, y, w, z, 1), BWiden(BSub(BSub(BAdd(sq(w), sq(x)), sq(y)), sq(z)), e))>>
(* the singular positions included, the angle about y is a number, close to the one of the clamped sine *)
YawReal(q) == LET r == Reals_(q) s == RMul(2, RSub(RMul(r[4], r[2]), RMul(r[1], r[3]))) IN RSub(RDiv(RPi, 2), AcosIn(s))
YawOK(q, z) == FFin(z) /\ RNear(R32(z), YawReal(q), RPow2(-8))
(* the angle is a number however w was rounded, close to the one of the clamped cosine *)
AngleOK(q, z) == FFin(z) /\ RNear(R32(z), RMul(2, AcosIn(R32(q[4]))), RPow2(-8))
EulerOK(q, z) == CloseAll(z, Euler(q)) /\ Fin(z) /\ YawOK(q, z[2])
FromEuler(e) ==
  LET h == Map1(LAMBDA x : BMul(x, BReal(RDiv(1, 2))), e) c == Map1(BCos, h) s == Map1(BSin, h)
      m3(a, b, d) == BMul(BMul(a, b), d)
  IN <<BSub(m3(s[1], c[2], c[3]), m3(c[1], s[2], s[3])), BAdd(m3(c[1], s[2], c[3]), m3(s[1], c[2], s[3])),
       BSub(m3(c[1], c[2], s[3]), m3(s[1], s[2], c[3])), BAdd(m3(c[1], c[2], c[3]), m3(s[1], s[2], s[3]))>>
AngleAxis(ang, ax) == LET h == BMul(ang, BReal(RDiv(1, 2))) s == BSin(h) IN <<BMul(ax[1], s), BMul(ax[2], s), BMul(ax[3], s), BCos(h)>>
FromToOK(u, v, z) ==
  (Moderate(u) /\ Moderate(v) /\ ~ZeroVec(u) /\ ~ZeroVec(v)) =>
    LET ru == Reals_(u) rv == Reals_(v) nu == RScale(RDiv(1, RLen(ru)), ru) nv == RScale(RDiv(1, RLen(rv)), rv)
        op1 == RAdd(1, RDot(nu, nv))
        tol == IF RLt(op1, RMul(4, RPow2(-20))) THEN RPow2(-8) ELSE RAdd(RMul(64, UR), RDiv(RMul(16, UR), RSqrt(op1)))
    IN Fin(z) /\ UnitQ(z, RPow2(-20)) /\ RNearVec(RMatVec3(RotOf(Reals_(z)), nu), nv, tol)
       /\ RNear(RDot(SubSeq(Reals_(z), 1, 3), nu), 0, tol)          \* about an axis perpendicular to both: the shorter way
(* columns: x = up cross dir, y = dir cross x, z = dir *)
LookQOK(d, up, sign, z) ==
  LET rd == RScale(sign, Reals_(d)) ru == Reals_(up) cr == RCross(ru, rd) l == RLen(cr)
  IN (Moderate(d) /\ Moderate(up) /\ UnitVec(d, RPow2(-21)) /\ ~ZeroVec(up) /\ RLt(RMul(RPow2(-8), RLen(ru)), l)) =>
     LET xx == RScale(RDiv(1, l), cr) yy == RCross(rd, xx)
     IN Fin(z) /\ UnitQ(z, RPow2(-14)) /\ RNearVec(RotOf(Reals_(z)), xx \o yy \o rd, RAdd(RPow2(-17), RDiv(RMul(RMul(64, UR), RLen(ru)), l)))
QuatAllowed(op, a, r) ==
  Len(r) = 1 /\
  LET z == r[1] IN
  CASE op = "mul" -> AllModerate(a) => CloseAll(z, BHam(Balls(a[1]), Balls(a[2])))
    [] op = "conjugate" -> SameVec(<<FNeg(a[1][1]), FNeg(a[1][2]), FNeg(a[1][3]), a[1][4]>>, z)
    [] op = "inverse" -> Moderate(a[1]) => LET b == Balls(a[1]) d == VDot(b, b) IN
                         CloseAll(z, <<BNeg(BDiv(b[1], d)), BNeg(BDiv(b[2], d)), BNeg(BDiv(b[3], d)), BDiv(b[4], d)>>)
    [] op = "qv" -> AllModerate(a) /\ Unitary(a[1]) => RotateOK(Reals_(a[1]), Reals_(a[2]), z)
    [] op = "vq" -> AllModerate(a) /\ Unitary(a[2]) => RotateOK(RConj(Reals_(a[2])), Reals_(a[1]), z)
    [] op = "lerp" -> Fin(a[1]) /\ Fin(a[2]) /\ InUnit(a[3][1]) =>
         /\ CloseAll(z, LerpBall(a[1], a[2], a[3][1]))
         /\ FZero(a[3][1]) => SameVec(a[1], z)        \* the end points exactly
         /\ a[3][1] = One => SameVec(a[2], z)
    [] op = "nlerp" -> Fin(a[1]) /\ Fin(a[2]) /\ InUnit(a[3][1]) => CloseAll(z, VUnit(LerpBall(a[1], a[2], a[3][1])))
    [] op = "slerp" -> SlerpOK(a[1], a[2], a[3][1], z)
    [] op = "angleAxis" -> AllModerate(a) => CloseAll(z, AngleAxis(B32(a[1][1]), Balls(a[2])))
    [] op = "rotate" -> AllModerate(a) => CloseAll(z, BHam(Balls(a[1]), AngleAxis(B32(a[2][1]), VUnit(Balls(a[3])))))
    [] op = "angle" -> Unitary(a[1]) => AngleOK(a[1], z[1]) /\ CloseAll(z, <<BMul(BReal(2), BAcos(BWiden(B32(a[1][4]), RAdd(RMul(2, UR), NormErr(a[1])))))>>)
    [] op = "axis" -> Unitary(a[1]) =>
         LET w == B32(a[1][4]) d == BSqrt(BWiden(BSub(BReal(1), BMul(w, w)), NormErr(a[1])))
         IN Fin(z) /\ CloseAll(z, <<BDiv(B32(a[1][1]), d), BDiv(B32(a[1][2]), d), BDiv(B32(a[1][3]), d)>>)
    [] op = "eulerAngles" -> Unitary(a[1]) => EulerOK(a[1], z)
    [] op = "pitch" -> Unitary(a[1]) => CloseAll(z, <<Euler(a[1])[1]>>) /\ Fin(z)
    [] op = "yaw"   -> Unitary(a[1]) => CloseAll(z, <<Euler(a[1])[2]>>) /\ YawOK(a[1], z[1])
    [] op = "roll"  -> Unitary(a[1]) => CloseAll(z, <<Euler(a[1])[3]>>) /\ Fin(z)
    [] op = "mat3_cast" -> Unitary(a[1]) => ToMatOK(a[1], z)
    [] op = "mat4_cast" -> Unitary(a[1]) => /\ ToMatOK(a[1], Upper3(z))
                                            /\ \A k \in {4, 8, 12, 13, 14, 15} : FZero(z[k])
                                            /\ z[16] = One
    [] op = "quat_cast" -> CastOK(a[1], z)
    [] op \in {"castround", "castround4"} -> Unitary(a[1]) => Fin(z) /\ SameRot(a[1], z, RPow2(-17))
    [] op = "lookRH" -> LookQOK(a[1], a[2], -1, z)
    [] op = "lookLH" -> LookQOK(a[1], a[2], 1, z)
    [] op = "fromto" -> FromToOK(a[1], a[2], z)
    [] op = "fromeuler" -> AllModerate(a) => CloseAll(z, FromEuler(Balls(a[1])))
=============================================================================
