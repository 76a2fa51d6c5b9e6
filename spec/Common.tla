------------------------------- MODULE Common -------------------------------
(* Rounding, sign, selection, interpolation, classification and reduction of  *)
(* float lanes (GLSL 4.60 chapter 8.3 definitions).                           *)
EXTENDS Binary32, Lanes, FiniteSets

(* the value of a finite argument; either zero is accepted for zero *)
Val1(F(_), x, z) == FFin(x) => FEq(z, F(x))
FSign(x) == IF FNaN(x) THEN QNaN ELSE IF FZero(x) THEN PZero ELSE IF x < 0 THEN MOne ELSE One
FSignNZ(x) == IF FLt(x, PZero) THEN MOne ELSE One
FFract(x) == FSub(x, FFloor(x))
ModOK(x, y, z) ==
  (FFin(x) /\ FFin(y) /\ ~FZero(y)) =>
    LET q == FFloor(FDiv(x, y)) IN
      \/ FEq(z, FSub(x, FMul(y, q)))
      \/ FFin(q) /\ BClose(z, BSub(B32(x), BMul(B32(y), B32(q))))
      \/ ~FFin(q)
RoundAllowed(op, a, z) ==
  CASE op = "abs"   -> Rel1(LAMBDA x, y : Val1(FAbs, x, y), a[1], z)
    [] op = "ceil"  -> Rel1(LAMBDA x, y : Val1(FCeil, x, y), a[1], z)
    [] op = "floor" -> Rel1(LAMBDA x, y : Val1(FFloor, x, y), a[1], z)
    [] op = "trunc" -> Rel1(LAMBDA x, y : Val1(FTrunc, x, y), a[1], z)
    [] op = "round" -> Rel1(LAMBDA x, y : Val1(FRoundAway, x, y), a[1], z)
    [] op = "roundEven" -> Rel1(LAMBDA x, y : Val1(FRoundEven, x, y), a[1], z)
    [] op = "sign"  -> Rel1(LAMBDA x, y : Val1(FSign, x, y), a[1], z)
    [] op = "signNotZero" -> Rel1(LAMBDA x, y : Val1(FSignNZ, x, y), a[1], z)
    [] op = "fract" -> Rel1(LAMBDA x, y : Val1(FFract, x, y), a[1], z)
    [] op = "mod"   -> Rel2(ModOK, a[1], a[2], z)

-------------------------------------------------------------------------------
(* Two floats of the same value; NaN has the value of NaN *)
Same(x, z) == FEq(x, z) \/ (FNaN(x) /\ FNaN(z))
(* the first argument when the second is NaN; nothing is promised when the first is *)
MinV(x, y) == IF FNaN(y) THEN x ELSE IF FLt(y, x) THEN y ELSE x
MaxV(x, y) == IF FNaN(y) THEN x ELSE IF FLt(x, y) THEN y ELSE x
MinOK(x, y, z) == FNaN(x) \/ Same(MinV(x, y), z)
MaxOK(x, y, z) == FNaN(x) \/ Same(MaxV(x, y), z)
ClampOK(x, lo, hi, z) == FNaN(x) \/ Same(MinV(MaxV(x, lo), hi), z)
StepOK(e, x, z) == FEq(z, IF FLt(x, e) THEN PZero ELSE One)
Three == 1077936128
SmoothBall(e0, e1, x) ==
  LET t == BMin(BMax(BDiv(BSub(B32(x), B32(e0)), BSub(B32(e1), B32(e0))), B32(PZero)), B32(One))
  IN BMul(BMul(t, t), BSub(B32(Three), BMul(BReal(2), t)))
SmoothOK(e0, e1, x, z) ==
  LET b == SmoothBall(e0, e1, x) IN
  BIsTop(b) \/ IF FLt(e0, e1) /\ FLe(x, e0) THEN FEq(z, PZero)
               ELSE IF FLt(e0, e1) /\ FLe(e1, x) THEN FEq(z, One)
               ELSE BClose(z, b)
FmaOK(x, y, c, z) == Same(FFma(x, y, c), z)
(* x (1 - t) + y t, in this or in the form x + (y - x) t *)
MixBall(x, y, t) ==
  BWiden(BAdd(BMul(B32(x), BSub(B32(One), B32(t))), BMul(B32(y), B32(t))),
         RMul(RMul(RAdd(RAbs(R32(x)), RAbs(R32(y))), RAdd(1, RAbs(R32(t)))), RPow2(-24)))
MixOK(x, y, t, z) == (FFin(x) /\ FFin(y) /\ FFin(t)) => BClose(z, MixBall(x, y, t))
MixBOK(x, y, t, z) == z = IF t = 1 THEN y ELSE x
SelectAllowed(op, a, z) ==
  CASE op = "min"   -> Rel2(MinOK, a[1], a[2], z)
    [] op = "max"   -> Rel2(MaxOK, a[1], a[2], z)
    [] op = "clamp" -> Rel3(ClampOK, a[1], a[2], a[3], z)
    [] op = "step"  -> Rel2(StepOK, a[1], a[2], z)
    [] op = "smoothstep" -> Rel3(SmoothOK, a[1], a[2], a[3], z)
    [] op = "fma"   -> Rel3(FmaOK, a[1], a[2], a[3], z)
    [] op = "mix"   -> Rel3(MixOK, a[1], a[2], a[3], z)
    [] op = "mixb"  -> Rel3(MixBOK, a[1], a[2], a[3], z)

-------------------------------------------------------------------------------
RelationResult(op, a) ==
  CASE op = "isnan" -> Map1(LAMBDA x : B01(FNaN(x)), a[1])
    [] op = "isinf" -> Map1(LAMBDA x : B01(FInf(x)), a[1])
    [] op = "lessThan"         -> Map2(LAMBDA x, y : B01(FLt(x, y)), a[1], a[2])
    [] op = "lessThanEqual"    -> Map2(LAMBDA x, y : B01(FLe(x, y)), a[1], a[2])
    [] op = "greaterThan"      -> Map2(LAMBDA x, y : B01(FLt(y, x)), a[1], a[2])
    [] op = "greaterThanEqual" -> Map2(LAMBDA x, y : B01(FLe(y, x)), a[1], a[2])
    [] op = "equal"            -> Map2(LAMBDA x, y : B01(FEq(x, y)), a[1], a[2])
    [] op = "notEqual"         -> Map2(LAMBDA x, y : B01(~FEq(x, y)), a[1], a[2])
RECURSIVE BFold(_, _)
BFold(Op(_,_), s) == IF Len(s) = 1 THEN s[1] ELSE Op(BFold(Op, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Has(v, P(_)) == \E i \in 1..Len(v) : P(v[i])
(* a magnitude of which four can be added or multiplied in any order without leaving the normal range *)
Modest(x) == FZero(x) \/ (FMag(x) >= 805306368 /\ FMag(x) <= 1325400064)
AllModest(v) == \A i \in 1..Len(v) : FFin(v[i]) => Modest(v[i])
OddNegatives(v) == LET neg == {i \in 1..Len(v) : v[i] < 0} IN \E k \in 0..2 : neg # {} /\ Cardinality(neg) = 2 * k + 1
(* some order of combining the components has an intermediate result with property P *)
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
SomeOrder(Op(_,_), s, P(_)) ==
  \E p \in Orders(Len(s)) :
    \/ P(BFold(Op, [i \in 1..Len(s) |-> s[p[i]]]))
    \/ Len(s) = 4 /\ P(Op(Op(s[p[1]], s[p[2]]), Op(s[p[3]], s[p[4]])))
Folded(Op(_,_), v, z) ==
  LET s == Map1(B32, v) IN
  \/ BClose(z, BFold(Op, s))
  \/ SomeOrder(Op, s, LAMBDA b : IF BIsTop(b) THEN ~FFin(z) ELSE BClose(z, b))
(* sums and products take NaN and the infinities as IEEE arithmetic does *)
SumOK(v, z) ==
  IF Has(v, FNaN) THEN FNaN(z)
  ELSE IF Has(v, LAMBDA x : x = PInf) /\ Has(v, LAMBDA x : x = NInf) THEN FNaN(z)
  ELSE IF Has(v, FInf) THEN AllModest(v) => Has(v, LAMBDA x : FInf(x) /\ x = z)
  ELSE Folded(BAdd, v, z)
ProductOK(v, z) ==
  IF Has(v, FNaN) THEN FNaN(z)
  ELSE IF Has(v, FInf) THEN IF Has(v, FZero) THEN FNaN(z) ELSE AllModest(v) => z = SInf(OddNegatives(v))
  ELSE Folded(BMul, v, z)
ReduceAllowed(op, a, z) ==
  LET v == a[1] IN
  Len(z) = 1 /\
  CASE op = "compAdd" -> SumOK(v, z[1])
    [] op = "compMul" -> ProductOK(v, z[1])
    [] op = "compMin" -> (\A i \in 1..Len(v) : ~FNaN(v[i])) => (\E i \in 1..Len(v) : FEq(z[1], v[i])) /\ \A i \in 1..Len(v) : FLe(z[1], v[i])
    [] op = "compMax" -> (\A i \in 1..Len(v) : ~FNaN(v[i])) => (\E i \in 1..Len(v) : FEq(z[1], v[i])) /\ \A i \in 1..Len(v) : FLe(v[i], z[1])
=============================================================================
