------------------------------- MODULE LinAlg -------------------------------
(* Vectors and matrices over balls (reals with an accumulated error bound).   *)
EXTENDS Binary32, Lanes

UR == RPow2(-24)                      \* unit roundoff
Fin(a) == \A i \in 1..Len(a) : FFin(a[i])
(* no product of up to four lanes can overflow or lose bits to underflow *)
Moderate(a) == \A i \in 1..Len(a) : FZero(a[i]) \/ (FMag(a[i]) >= 813694976 /\ FMag(a[i]) <= 1317011456)   \* 2^-30 .. 2^30
AllModerate(as) == \A k \in 1..Len(as) : Moderate(as[k])
Balls(a) == Map1(B32, a)
Reals_(a) == Map1(R32, a)
CloseAll(z, b) == Len(z) = Len(b) /\ \A i \in 1..Len(z) : BClose(z[i], b[i])
ZeroVec(z) == \A i \in 1..Len(z) : FZero(z[i])
NegVec(z) == Map1(FNeg, z)
SameVec(x, z) == Len(x) = Len(z) /\ \A i \in 1..Len(x) : FEq(x[i], z[i]) \/ (FNaN(x[i]) /\ FNaN(z[i]))

RECURSIVE BSumTo(_, _)
BSumTo(s, n) == IF n = 1 THEN s[1] ELSE BAdd(BSumTo(s, n - 1), s[n])
BSum(s) == BSumTo(s, Len(s))
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN 0 ELSE RAdd(RSumTo(s, n - 1), s[n])
RSum(s) == RSumTo(s, Len(s))
(* ball vectors *)
VAdd(a, b) == Map2(BAdd, a, b)
VSub(a, b) == Map2(BSub, a, b)
VScale(s, a) == Map1(LAMBDA x : BMul(s, x), a)
VNeg(a) == Map1(BNeg, a)
VDot(a, b) == BSum(Map2(BMul, a, b))
VCross(a, b) == <<BSub(BMul(a[2], b[3]), BMul(a[3], b[2])), BSub(BMul(a[3], b[1]), BMul(a[1], b[3])), BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))>>
VLen(a) == BRoot(VDot(a, a))
VUnit(a) == LET l == VLen(a) IN Map1(LAMBDA x : BDiv(x, l), a)
(* real vectors *)
RDot(a, b) == RSum(Map2(RMul, a, b))
RLen(a) == RSqrt(RDot(a, a))
RScale(s, a) == Map1(LAMBDA x : RMul(s, x), a)
RVSub(a, b) == Map2(RSub, a, b)
RCross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RNorm1(a) == RSum(Map1(RAbs, a))
RNear(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
RNearVec(x, y, tol) == \A i \in 1..Len(x) : RNear(x[i], y[i], tol)
(* lanes that are integers small enough for exact evaluation in any order *)
SmallInts(a) == \A i \in 1..Len(a) : FFin(a[i]) /\ RLe(RAbs(R32(a[i])), 512) /\ REq(RFloor(R32(a[i])), R32(a[i]))
(* sign of the inner product as single precision must see it; 0: undetermined *)
DotSign(a, b) == IF SmallInts(a) /\ SmallInts(b) THEN IF RLt(RDot(Reals_(a), Reals_(b)), 0) THEN -1 ELSE 1
                 ELSE BSign(VDot(Balls(a), Balls(b)))

-------------------------------------------------------------------------------
(* geometric functions *)
NonNeg(x) == FLe(PZero, x)
Refract(I, N, eta, z) ==
  LET bi == Balls(I) bn == Balls(N) be == B32(eta[1])
      d == VDot(bn, bi)
      k == BSub(BReal(1), BMul(BMul(be, be), BSub(BReal(1), BMul(d, d))))
      exact == SmallInts(I) /\ SmallInts(N) /\ SmallInts(eta)
      kr == LET dr == RDot(Reals_(I), Reals_(N)) er == R32(eta[1]) IN RSub(1, RMul(RMul(er, er), RSub(1, RMul(dr, dr))))
      s == IF exact THEN (IF RLt(kr, 0) THEN -1 ELSE IF RLe(RAbs(kr), 65536) THEN 1 ELSE BSign(k)) ELSE BSign(k)
      out == VSub(VScale(be, bi), VScale(BAdd(BMul(be, d), IF exact THEN BSqrt(BReal(kr)) ELSE IF s = 1 THEN BSqrt(k) ELSE BRoot(k)), bn))
  IN CASE s = -1 -> ZeroVec(z)
       [] s = 1  -> CloseAll(z, out)
       [] OTHER  -> ZeroVec(z) \/ CloseAll(z, out)
UnitVec(v, tol) == RNear(RDot(Reals_(v), Reals_(v)), 1, tol)
OrthoOK(v, z) ==
  /\ Fin(z) /\ ~ZeroVec(z)
  /\ LET rv == Reals_(v) rz == Reals_(z) IN
     /\ RLe(RAbs(RDot(rv, rz)), RMul(RMul(16, UR), RMul(RNorm1(rv), RNorm1(rz))))
     /\ RLe(RLen(rv), RMul(8, RLen(rz)))       \* long enough to be normalized
GeomAllowed(op, a, z) ==
  CASE op = "dot" -> Fin(a[1]) /\ Fin(a[2]) => CloseAll(z, <<VDot(Balls(a[1]), Balls(a[2]))>>)
    [] op = "length2" -> Fin(a[1]) => CloseAll(z, <<VDot(Balls(a[1]), Balls(a[1]))>>)
    [] op = "length" -> Fin(a[1]) => CloseAll(z, <<VLen(Balls(a[1]))>>) /\ (BIsTop(VLen(Balls(a[1]))) \/ NonNeg(z[1]))
    [] op = "distance2" -> Fin(a[1]) /\ Fin(a[2]) => LET d == VSub(Balls(a[1]), Balls(a[2])) IN CloseAll(z, <<VDot(d, d)>>)
    [] op = "distance" -> Fin(a[1]) /\ Fin(a[2]) => LET d == VSub(Balls(a[1]), Balls(a[2])) IN CloseAll(z, <<VLen(d)>>) /\ (BIsTop(VLen(d)) \/ NonNeg(z[1]))
    [] op = "normalize" -> Fin(a[1]) => CloseAll(z, VUnit(Balls(a[1])))
    [] op = "cross" -> Fin(a[1]) /\ Fin(a[2]) => CloseAll(z, VCross(Balls(a[1]), Balls(a[2])))
    [] op = "reflect" -> Fin(a[1]) /\ Fin(a[2]) =>
         CloseAll(z, VSub(Balls(a[1]), VScale(BMul(BReal(2), VDot(Balls(a[2]), Balls(a[1]))), Balls(a[2]))))
    [] op = "refract" -> Fin(a[1]) /\ Fin(a[2]) /\ Fin(a[3]) => Refract(a[1], a[2], a[3], z)
    [] op = "faceforward" -> Fin(a[1]) /\ Fin(a[2]) /\ Fin(a[3]) =>
         LET s == DotSign(a[3], a[2]) IN
         \/ s \in {-1, 0, 2} /\ SameVec(a[1], z)
         \/ s \in {1, 0, 2} /\ SameVec(NegVec(a[1]), z)
    [] op = "orthogonal" -> Moderate(a[1]) /\ ~ZeroVec(a[1]) => OrthoOK(a[1], z)
    [] op = "orthogonal_branchless" -> Fin(a[1]) /\ UnitVec(a[1], RPow2(-18)) => OrthoOK(a[1], z)
    [] op = "encode_octahedral" -> Fin(a[1]) /\ UnitVec(a[1], RPow2(-18)) =>
         Fin(z) /\ \A i \in 1..2 : RLe(RAbs(R32(z[i])), RAdd(1, RMul(4, UR)))
    [] op = "decode_octahedral" -> Fin(a[1]) /\ (\A i \in 1..2 : RLe(RAbs(R32(a[1][i])), 1)) => Fin(z) /\ UnitVec(z, RPow2(-19))
    [] op = "octround" -> Fin(a[1]) /\ UnitVec(a[1], RPow2(-21)) => Fin(z) /\ RNearVec(Reals_(z), Reals_(a[1]), RPow2(-18))

-------------------------------------------------------------------------------
(* matrices of balls *)
MMul(a, b) == Mat(Order(a), LAMBDA c, r : BSum(Tup([k \in 1..Order(a) |-> BMul(El(a, k - 1, r), El(b, c, k - 1))])))
MVec(m, v) == Tup([r \in 1..Len(v) |-> BSum(Tup([k \in 1..Len(v) |-> BMul(El(m, k - 1, r - 1), v[k])]))])
VMat(v, m) == Tup([c \in 1..Len(v) |-> BSum(Tup([k \in 1..Len(v) |-> BMul(v[k], El(m, c - 1, k - 1))]))])
Transposed(m) == Mat(Order(m), LAMBDA c, r : El(m, r, c))
(* determinant of the submatrix of columns C and rows R, by Laplace expansion *)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE DetOf(_, _, _)
DetOf(m, C, R) ==
  IF Len(C) = 1 THEN El(m, C[1], R[1])
  ELSE RSum(Tup([i \in 1..Len(R) |-> LET t == RMul(El(m, C[1], R[i]), DetOf(m, Tail(C), Drop(R, i))) IN IF i % 2 = 1 THEN t ELSE RNeg(t)]))
(* the same expansion over absolute values bounds the rounding error of every evaluation order *)
RECURSIVE PermOf(_, _, _)
PermOf(m, C, R) ==
  IF Len(C) = 1 THEN RAbs(El(m, C[1], R[1]))
  ELSE RSum(Tup([i \in 1..Len(R) |-> RMul(RAbs(El(m, C[1], R[i])), PermOf(m, Tail(C), Drop(R, i)))]))
Idx(n) == Tup([i \in 1..n |-> i - 1])
Minor(m, C, R) == BWiden(BReal(DetOf(m, C, R)), RMul(RMul(2, UR), PermOf(m, C, R)))
DetBall(m) == Minor(m, Idx(Order(m)), Idx(Order(m)))
(* adj[c][r] is the cofactor of element [r][c]; m holds reals *)
AdjBall(m) ==
  LET n == Order(m) IN
  Mat(n, LAMBDA c, r : LET d == Minor(m, Drop(Idx(n), r + 1), Drop(Idx(n), c + 1)) IN IF (c + r) % 2 = 0 THEN d ELSE BNeg(d))
InvBall(m) == LET d == DetBall(m) IN Map1(LAMBDA x : BDiv(x, d), AdjBall(m))
MatAllowed(op, a, z) ==
  CASE op = "mm" -> AllModerate(a) => CloseAll(z, MMul(Balls(a[1]), Balls(a[2])))
    [] op = "mv" -> AllModerate(a) => CloseAll(z, MVec(Balls(a[1]), Balls(a[2])))
    [] op = "vm" -> AllModerate(a) => CloseAll(z, VMat(Balls(a[1]), Balls(a[2])))
    [] op = "transpose" -> z = Transposed(a[1])
    [] op = "determinant" -> AllModerate(a) => CloseAll(z, <<DetBall(Reals_(a[1]))>>)
    [] op = "adjugate" -> AllModerate(a) => CloseAll(z, AdjBall(Reals_(a[1])))
    [] op = "adjugateTranspose" -> AllModerate(a) => CloseAll(z, Transposed(AdjBall(Reals_(a[1]))))
    [] op = "inverse" -> AllModerate(a) => CloseAll(z, InvBall(Reals_(a[1])))
    [] op = "inverseTranspose" -> AllModerate(a) => CloseAll(z, Transposed(InvBall(Reals_(a[1]))))
    [] op = "mdivm" -> AllModerate(a) => CloseAll(z, MMul(Balls(a[1]), InvBall(Reals_(a[2]))))
    [] op = "mdivv" -> AllModerate(a) => CloseAll(z, MVec(InvBall(Reals_(a[1])), Balls(a[2])))
    [] op = "vdivm" -> AllModerate(a) => CloseAll(z, VMat(Balls(a[1]), InvBall(Reals_(a[2]))))
=============================================================================
