----------------------------- MODULE Transform -----------------------------
(* Affine maps, view and projection matrices, decomposition.                  *)
EXTENDS LinAlg

B0 == BReal(0)
B1 == BReal(1)
(* 4x4 matrix given by rows of balls *)
Rows(a, b, c, d) == LET m == <<a, b, c, d>> IN Mat(4, LAMBDA k, r : m[r + 1][k + 1])
TranslationM(v) == Rows(<<B1, B0, B0, v[1]>>, <<B0, B1, B0, v[2]>>, <<B0, B0, B1, v[3]>>, <<B0, B0, B0, B1>>)
ScalingM(v) == Rows(<<v[1], B0, B0, B0>>, <<B0, v[2], B0, B0>>, <<B0, B0, v[3], B0>>, <<B0, B0, B0, B1>>)
(* right-handed rotation by an angle about a unit axis *)
RotationM(ang, n) ==
  LET c == BCos(ang) s == BSin(ang) t == BSub(B1, c)
      e(i, j) == BMul(BMul(t, n[i]), n[j])
  IN Rows(<<BAdd(c, e(1, 1)), BSub(e(1, 2), BMul(s, n[3])), BAdd(e(1, 3), BMul(s, n[2])), B0>>,
          <<BAdd(e(2, 1), BMul(s, n[3])), BAdd(c, e(2, 2)), BSub(e(2, 3), BMul(s, n[1])), B0>>,
          <<BSub(e(3, 1), BMul(s, n[2])), BAdd(e(3, 2), BMul(s, n[1])), BAdd(c, e(3, 3)), B0>>,
          <<B0, B0, B0, B1>>)
(* view matrix: rows are the camera's axes, the eye goes to the origin *)
ViewM(s, u, w, eye) ==
  Rows(<<s[1], s[2], s[3], BNeg(VDot(s, eye))>>, <<u[1], u[2], u[3], BNeg(VDot(u, eye))>>,
       <<w[1], w[2], w[3], BNeg(VDot(w, eye))>>, <<B0, B0, B0, B1>>)
LookRH(eye, center, up) ==      \* looks down -z
  LET f == VUnit(VSub(center, eye)) s == VUnit(VCross(f, up)) u == VCross(s, f) IN ViewM(s, u, VNeg(f), eye)
LookLH(eye, center, up) ==      \* looks down +z
  LET f == VUnit(VSub(center, eye)) s == VUnit(VCross(up, f)) u == VCross(f, s) IN ViewM(s, u, f, eye)
(* l, r, b, t, n, f: the box; lo: depth of the near plane; dir: -1 looks down -z *)
OrthoM(l, r, b, t, n, f, lo, dir) ==
  LET w == BSub(r, l) h == BSub(t, b) d == BSub(f, n) k == BSub(B1, BReal(lo))
  IN Rows(<<BDiv(BReal(2), w), B0, B0, BNeg(BDiv(BAdd(r, l), w))>>,
          <<B0, BDiv(BReal(2), h), B0, BNeg(BDiv(BAdd(t, b), h))>>,
          <<B0, B0, BMul(BReal(dir), BDiv(k, d)), IF lo = 0 THEN BNeg(BDiv(n, d)) ELSE BNeg(BDiv(BAdd(f, n), d))>>,
          <<B0, B0, B0, B1>>)
PerspM(fovy, aspect, n, f, lo, dir) ==
  LET t == BTan(BMul(fovy, BReal(RDiv(1, 2)))) d == BSub(f, n)
  IN Rows(<<BDiv(B1, BMul(aspect, t)), B0, B0, B0>>,
          <<B0, BDiv(B1, t), B0, B0>>,
          <<B0, B0, BMul(BReal(dir), IF lo = 0 THEN BDiv(f, d) ELSE BDiv(BAdd(f, n), d)),
            BNeg(BDiv(BMul(BMul(BSub(B1, BReal(lo)), f), n), d))>>,
          <<B0, B0, BReal(dir), B0>>)
-------------------------------------------------------------------------------
(* the rotation matrix of a quaternion (x, y, z, w), in reals, column-major 3x3 *)
RotOf(q) ==
  LET x == q[1] y == q[2] z == q[3] w == q[4]
      two(a, b, c, d, s) == RMul(2, IF s = 1 THEN RAdd(RMul(a, b), RMul(c, d)) ELSE RSub(RMul(a, b), RMul(c, d)))
  IN <<RSub(1, RMul(2, RAdd(RMul(y, y), RMul(z, z)))), two(x, y, w, z, 1), two(x, z, w, y, -1),
       two(x, y, w, z, -1), RSub(1, RMul(2, RAdd(RMul(x, x), RMul(z, z)))), two(y, z, w, x, 1),
       two(x, z, w, y, 1), two(y, z, w, x, -1), RSub(1, RMul(2, RAdd(RMul(x, x), RMul(y, y))))>>
UnitQ(q, tol) == RNear(RDot(Reals_(q), Reals_(q)), 1, tol)
Col3(m, j) == <<m[4 * j + 1], m[4 * j + 2], m[4 * j + 3]>>
Det3(a, b, c) == RDot(a, RCross(b, c))
(* a translation times a rotation times an axis-aligned scaling, up to rounding of its elements *)
Decomposable(m) ==
  /\ Moderate(m) /\ FZero(m[4]) /\ FZero(m[8]) /\ FZero(m[12]) /\ m[16] = One
  /\ LET c(j) == Reals_(Col3(m, j)) IN
     /\ \A j \in 0..2 : RLe(RPow2(-40), RLen(c(j))) /\ RLe(RLen(c(j)), RPow2(40))
     /\ \A i, j \in 0..2 : i < j => RLe(RAbs(RDot(c(i), c(j))), RMul(RMul(16, UR), RMul(RLen(c(i)), RLen(c(j)))))
DecomposeOK(m, s, o, t) ==
  Decomposable(m) =>
    /\ Fin(s) /\ Fin(o) /\ Fin(t)
    /\ \A i \in 1..3 : FEq(t[i], m[12 + i])
    /\ UnitQ(o, RPow2(-17))
    /\ LET R == RotOf(Reals_(o)) IN
       \A j \in 0..2 : LET c == Reals_(Col3(m, j)) IN
         RNearVec(RScale(R32(s[j + 1]), SubSeq(R, 3 * j + 1, 3 * j + 3)), c, RMul(RPow2(-16), RLen(c)))
    /\ RLt(0, Det3(Reals_(Col3(m, 0)), Reals_(Col3(m, 1)), Reals_(Col3(m, 2)))) => \A j \in 1..3 : FLt(PZero, s[j])

TransformAllowed(op, a, r) ==
  IF op = "decompose" THEN Len(r) = 3 /\ DecomposeOK(a[1], r[1], r[2], r[3])
  ELSE Len(r) = 1 /\
  LET z == r[1] b(k) == Balls(a[k]) v(k) == B32(a[k][1]) IN
  AllModerate(a) =>
  CASE op = "translate" -> CloseAll(z, MMul(b(1), TranslationM(b(2))))
    [] op = "scale"     -> CloseAll(z, MMul(b(1), ScalingM(b(2))))
    [] op = "rotate"    -> CloseAll(z, MMul(b(1), RotationM(v(2), VUnit(b(3)))))
    [] op = "lookAtRH"  -> CloseAll(z, LookRH(b(1), b(2), b(3)))
    [] op = "lookAtLH"  -> CloseAll(z, LookLH(b(1), b(2), b(3)))
    [] op = "ortho"     -> CloseAll(z, OrthoM(v(1), v(2), v(3), v(4), BReal(-1), B1, -1, -1))
    [] op = "orthoRH_ZO" -> CloseAll(z, OrthoM(v(1), v(2), v(3), v(4), v(5), v(6), 0, -1))
    [] op = "orthoLH_ZO" -> CloseAll(z, OrthoM(v(1), v(2), v(3), v(4), v(5), v(6), 0, 1))
    [] op = "orthoRH_NO" -> CloseAll(z, OrthoM(v(1), v(2), v(3), v(4), v(5), v(6), -1, -1))
    [] op = "orthoLH_NO" -> CloseAll(z, OrthoM(v(1), v(2), v(3), v(4), v(5), v(6), -1, 1))
    [] op = "perspectiveRH_ZO" -> CloseAll(z, PerspM(v(1), v(2), v(3), v(4), 0, -1))
    [] op = "perspectiveLH_ZO" -> CloseAll(z, PerspM(v(1), v(2), v(3), v(4), 0, 1))
    [] op = "perspectiveRH_NO" -> CloseAll(z, PerspM(v(1), v(2), v(3), v(4), -1, -1))
    [] op = "perspectiveLH_NO" -> CloseAll(z, PerspM(v(1), v(2), v(3), v(4), -1, 1))
=============================================================================
