------------------------------ MODULE BoolOps ------------------------------
EXTENDS Lanes
BAnd1(x, y) == IF x = 1 /\ y = 1 THEN 1 ELSE 0
BOr1(x, y)  == IF x = 1 \/ y = 1 THEN 1 ELSE 0
BXor1(x, y) == IF x # y THEN 1 ELSE 0
BEqv1(x, y) == IF x = y THEN 1 ELSE 0
BNot1(x)    == 1 - x
BoolResult(op, a) ==
  CASE op = "and" -> Map2(BAnd1, a[1], a[2])
    [] op = "or"  -> Map2(BOr1, a[1], a[2])
    [] op = "xor" -> Map2(BXor1, a[1], a[2])
    [] op = "not" -> Map1(BNot1, a[1])
    [] op = "eq"  -> <<B01(a[1] = a[2])>>
    [] op = "ne"  -> <<B01(a[1] # a[2])>>
    [] op = "equal"    -> Map2(BEqv1, a[1], a[2])
    [] op = "notEqual" -> Map2(BXor1, a[1], a[2])
    [] op = "all" -> <<B01(\A i \in 1..Len(a[1]) : a[1][i] = 1)>>
    [] op = "any" -> <<B01(\E i \in 1..Len(a[1]) : a[1][i] = 1)>>
=============================================================================
