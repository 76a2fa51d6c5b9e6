------------------------------ MODULE FloatOps ------------------------------
(* Lane-wise IEEE arithmetic and equality of float vectors, matrices and      *)
(* quaternions.                                                               *)
EXTENDS Binary32, Lanes
FloatResult(op, a) ==
  CASE op = "add" -> Map2(FAdd, a[1], a[2])
    [] op = "sub" -> Map2(FSub, a[1], a[2])
    [] op = "mul" -> Map2(FMul, a[1], a[2])
    [] op = "div" -> Map2(FDiv, a[1], a[2])
    [] op = "neg" -> Map1(FNeg, a[1])
    [] op = "pos" -> Map1(Canon, a[1])
    [] op = "eq"  -> <<B01(\A i \in 1..Len(a[1]) : FEq(a[1][i], a[2][i]))>>
    [] op = "ne"  -> <<B01(~\A i \in 1..Len(a[1]) : FEq(a[1][i], a[2][i]))>>
=============================================================================
