------------------------------- MODULE IntOps -------------------------------
(* 32-bit integer lanes.  A result that does not fit is undefined behaviour   *)
(* of the caller and constrains nothing.                                      *)
EXTENDS RealArith, Bits32, Lanes

IntMin == -2147483647 - 1
(* z is the mathematical integer s, when that is representable *)
Fits(s, z) == FitsInt32(s) => REq(s, z)
RTrunc(q) == IF RLt(q, 0) THEN RNeg(RFloor(RNeg(q))) ELSE RFloor(q)
Quot(x, y) == RTrunc(RDiv(x, y))
IAdd(x, y, z) == Fits(RAdd(x, y), z)
ISub(x, y, z) == Fits(RSub(x, y), z)
IMul(x, y, z) == Fits(RMul(x, y), z)
IDiv(x, y, z) == y # 0 => Fits(Quot(x, y), z)
IRem(x, y, z) == (y # 0 /\ FitsInt32(Quot(x, y))) => REq(RSub(x, RMul(y, Quot(x, y))), z)
IAnd(x, y, z) == z = And32(x, y)
IOr(x, y, z)  == z = Or32(x, y)
IXor(x, y, z) == z = Xor32(x, y)
IShl(x, y, z) == y \in 0..31 => Fits(RMul(x, RPow2(y)), z)
IShr(x, y, z) == y \in 0..31 => REq(RFloor(RDiv(x, RPow2(y))), z)
INeg(x, z)    == Fits(RNeg(x), z)

(* lexicographic order *)
LexLt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

IntAllowed(op, a, z) ==
  CASE op = "add" -> Rel2(IAdd, a[1], a[2], z)
    [] op = "sub" -> Rel2(ISub, a[1], a[2], z)
    [] op = "mul" -> Rel2(IMul, a[1], a[2], z)
    [] op = "div" -> Rel2(IDiv, a[1], a[2], z)
    [] op = "rem" -> Rel2(IRem, a[1], a[2], z)
    [] op = "and" -> Rel2(IAnd, a[1], a[2], z)
    [] op = "or"  -> Rel2(IOr, a[1], a[2], z)
    [] op = "xor" -> Rel2(IXor, a[1], a[2], z)
    [] op = "shl" -> Rel2(IShl, a[1], a[2], z)
    [] op = "shr" -> Rel2(IShr, a[1], a[2], z)
    [] op = "neg" -> Rel1(INeg, a[1], z)
    [] op = "pos" -> z = a[1]
    [] op = "eq"  -> z = <<B01(a[1] = a[2])>>
    [] op = "ne"  -> z = <<B01(a[1] # a[2])>>
    [] op = "lt"  -> z = <<B01(LexLt(a[1], a[2]))>>
    [] op = "gt"  -> z = <<B01(LexLt(a[2], a[1]))>>
    [] op = "le"  -> z = <<B01(~LexLt(a[2], a[1]))>>
    [] op = "ge"  -> z = <<B01(~LexLt(a[1], a[2]))>>

-------------------------------------------------------------------------------
(* integer overloads of the common functions *)
IAbs(x, z)  == Fits(RAbs(x), z)
ISign(x, z) == z = IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
ISignNZ(x, z) == z = IF x < 0 THEN -1 ELSE 1
IMinV(x, y) == IF y < x THEN y ELSE x
IMaxV(x, y) == IF x < y THEN y ELSE x
IntCommonAllowed(op, a, z) ==
  CASE op = "abs"  -> Rel1(IAbs, a[1], z)
    [] op = "sign" -> Rel1(ISign, a[1], z)
    [] op = "signNotZero" -> Rel1(ISignNZ, a[1], z)
    [] op = "min"  -> z = Map2(IMinV, a[1], a[2])
    [] op = "max"  -> z = Map2(IMaxV, a[1], a[2])
    [] op = "clamp" -> z = Map2(IMinV, Map2(IMaxV, a[1], a[2]), a[3])
(* reductions; constrained when no partial result can overflow *)
RECURSIVE RFold(_, _, _)
RFold(Op(_,_), s, u) == IF s = <<>> THEN u ELSE Op(Head(s), RFold(Op, Tail(s), u))
RMax1(x) == IF x = 0 THEN 1 ELSE RAbs(x)
IntReduceAllowed(op, a, z) ==
  LET v == a[1] IN
  CASE op = "compAdd" -> FitsInt32(RFold(RAdd, Map1(RAbs, v), 0)) => Len(z) = 1 /\ REq(RFold(RAdd, v, 0), z[1])
    [] op = "compMul" -> FitsInt32(RFold(RMul, Map1(RMax1, v), 1)) => Len(z) = 1 /\ REq(RFold(RMul, v, 1), z[1])
    [] op = "compMin" -> Len(z) = 1 /\ (\E i \in 1..Len(v) : z[1] = v[i]) /\ \A i \in 1..Len(v) : z[1] <= v[i]
    [] op = "compMax" -> Len(z) = 1 /\ (\E i \in 1..Len(v) : z[1] = v[i]) /\ \A i \in 1..Len(v) : z[1] >= v[i]
=============================================================================
