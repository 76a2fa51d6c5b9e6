------------------------------- MODULE Layout -------------------------------
(* Constructors, conversions, and the views of one object: names, index, raw  *)
(* pointer.  All of them are functions on the sequence of lanes.              *)
EXTENDS Lanes, Binary32

OneF == 1065353216
Zeros(n) == Tup([i \in 1..n |-> 0])
Ident(n) == Mat(n, LAMBDA c, r : IF c = r THEN OneF ELSE 0)
(* float nearest to an integer *)
FromInt(i) == IF i = 0 THEN 0 ELSE Round32(RAdd(i, 0))

(* result of a view or conversion; n is the number of lanes of the result *)
LayoutResult(op, p, a, n) ==
  CASE op = "zero"     -> Zeros(Len(a[1]))
    [] op = "ident"    -> Ident(Order(a[1]))
    [] op = "identq"   -> <<0, 0, 0, OneF>>
    [] op = "bcast"    -> Tup([i \in 1..n |-> a[1][1]])
    [] op = "bcasti2f" -> Tup([i \in 1..n |-> FromInt(a[1][1])])
    [] op \in {"concat", "mconcat"} -> Concat(a)
    [] op \in {"make", "ptrcopy", "copy", "fill"} -> a[1]
    [] op = "mdiag"    -> LET d == IF n = 4 THEN 2 ELSE IF n = 9 THEN 3 ELSE 4
                          IN Mat(d, LAMBDA c, r : IF c = r THEN a[1][1] ELSE 0)
    [] op = "embed"    -> LET m == a[1] o == Order(a[1])
                          IN Mat(o + 1, LAMBDA c, r : IF c < o /\ r < o THEN El(m, c, r) ELSE IF c = r THEN OneF ELSE 0)
    [] op = "trunc"    -> LET m == a[1] IN Mat(Order(m) - 1, LAMBDA c, r : El(m, c, r))
    [] op = "tobool"   -> Map1(LAMBDA x : B01(x # 0), a[1])
    [] op \in {"wxyz", "swxyz"} -> <<a[2][1], a[3][1], a[4][1], a[1][1]>>
    [] op = "sv"       -> a[2] \o a[1]
    [] op \in {"index", "ptrget"} -> <<a[1][a[2][1] + 1]>>
    [] op = "col"      -> Column(a[1], a[2][1])
    [] op = "elem"     -> <<El(a[1], a[2][1], a[3][1])>>
    [] op = "get"      -> Select(a[1], p)
(* column c of a matrix updated with a vector or a scalar *)
ColUpdate(m, c, Op(_,_), v) ==
  LET o == Order(m) IN Tup([k \in 1..Len(m) |-> IF (k - 1) \div o = c THEN Op(m[k], At(v, ((k - 1) % o) + 1)) ELSE m[k]])
(* new value of the object written through a view *)
LayoutUpdate(op, p, a) ==
  CASE op \in {"setidx", "ptrset"} -> Replace(a[1], a[2][1] + 1, a[3][1])
    [] op = "setcol"  -> ColUpdate(a[1], a[2][1], LAMBDA x, y : y, a[3])
    [] op = "coladd"  -> ColUpdate(a[1], a[2][1], FAdd, a[3])
    [] op = "colsub"  -> ColUpdate(a[1], a[2][1], FSub, a[3])
    [] op = "colmul"  -> ColUpdate(a[1], a[2][1], FMul, a[3])
    [] op = "coldiv"  -> ColUpdate(a[1], a[2][1], FDiv, a[3])
    [] op = "colcoladd" -> ColUpdate(a[1], a[2][1], FAdd, Column(a[1], a[3][1]))
    [] op = "colcolmul" -> ColUpdate(a[1], a[2][1], FMul, Column(a[1], a[3][1]))
    [] op = "colcolset" -> ColUpdate(a[1], a[2][1], LAMBDA x, y : y, Column(a[1], a[3][1]))
    [] op = "colelemmul" -> ColUpdate(a[1], a[2][1], FMul, <<El(a[1], a[3][1], a[4][1])>>)
    [] op = "colelemdiv" -> ColUpdate(a[1], a[2][1], FDiv, <<El(a[1], a[3][1], a[4][1])>>)
    [] op = "setelem" -> Replace(a[1], a[2][1] * Order(a[1]) + a[3][1] + 1, a[4][1])
    [] op = "assign"  -> a[2]
    [] op = "set"     -> Replace(a[1], NameIndex(p[1]), a[2][1])
    [] op = "setc"    -> Replace(a[1], NameIndex(p[1]), a[2][NameIndex(p[2])])   \* a.p1 = b.p2
LayoutUpdates == {"setidx", "ptrset", "setcol", "coladd", "colsub", "colmul", "coldiv", "colcoladd", "colcolmul", "colcolset",
                  "colelemmul", "colelemdiv", "setelem", "assign", "set", "setc"}
(* reads through a non-const reference also report the (unchanged) object *)
LayoutReads == [indexw |-> "index", ptrgetw |-> "ptrget", colw |-> "col", fmt |-> "get"]
(* a view taken before the object is written through another one sees the new value: the object after the write, *)
(* and what the earlier view then shows                                                                          *)
LiveViews == {"liveptr", "livecptr", "liveidx", "livecidx", "liveset", "livename"}
LayoutAllowed(op, p, a, r) ==
  IF op \in LiveViews
  THEN LET i == a[2][1] + 1 n == Replace(a[1], i, a[3][1]) IN Len(r) = 2 /\ r[1] = n /\ r[2] = <<n[i]>>
  ELSE IF op = "livecol"
  THEN LET n == ColUpdate(a[1], a[2][1], LAMBDA x, y : y, a[3]) IN Len(r) = 2 /\ r[1] = n /\ r[2] = Column(n, a[2][1])
  ELSE
  IF op \in LayoutUpdates THEN Len(r) = 1 /\ r[1] = LayoutUpdate(op, p, a)
  ELSE IF op \in {"indexw", "ptrgetw", "colw"}
       THEN Len(r) = 2 /\ r[1] = a[1] /\ r[2] = LayoutResult(LayoutReads[op], p, a, Len(r[2]))
  ELSE Len(r) = 1 /\ r[1] = LayoutResult(IF op = "fmt" THEN "get" ELSE op, p, a, Len(r[1]))
=============================================================================
