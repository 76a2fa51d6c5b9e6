------------------------------- MODULE LawsInt -------------------------------
(* What the relations of IntOps and BoolOps must satisfy, whatever the values. *)
EXTENDS IntOps, BoolOps, FiniteSets, TLC
VARIABLE s
M == 2147483647
Ints == {0 - M - 1, 0 - M, -65536, -9, -8, -7, -3, -2, -1, 0, 1, 2, 3, 7, 8, 9, 31, 32, 65535, 65536, M - 1, M}
Small == {-2, -1, 0, 1, 2}
V2 == Small \X Small
V3 == {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1}
Bools(n) == [1..n -> {0, 1}]
Init ==
  \/ \E x, y \in Ints : s = <<"scalar", x, y>>
  \/ \E a, b \in V2 : s = <<"order", a, b>>
  \/ \E a, b \in V3 : s = <<"order", a, b>>
  \/ \E n \in 2..4 : \E a, b \in Bools(n) : s = <<"bool", Tup(a), Tup(b)>>
  \/ \E a \in V2, b \in V2, k \in Small : s = <<"lanes", a, b, k>>
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
(* the representable results an operation admits, among the candidates *)
Cands == Ints \cup -20..20
Admits(op, x, y, z) == IntAllowed(op, <<<<x>>, <<y>>>>, <<z>>)
Admitted(op, x, y) == {z \in Cands : Admits(op, x, y, z)}
Scalar ==
  s[1] = "scalar" =>
    LET x == s[2] y == s[3] IN
    /\ \A op \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr"} :
         LET A == Admitted(op, x, y) IN A # Cands => Cardinality(A) <= 1      \* unconstrained, or at most one result
    /\ \A op \in {"add", "mul", "and", "or", "xor"} : Admitted(op, x, y) = Admitted(op, y, x)
    (* the quotient truncates and the remainder has the sign of the dividend *)
    /\ y # 0 => LET q == Quot(x, y) r == RSub(x, RMul(y, q)) IN
         /\ RLt(RAbs(r), RAbs(y)) /\ (RSgn(r) = 0 \/ RSgn(r) = RSgn(x))
         /\ RLe(RAbs(RMul(q, y)), RAbs(x))
    /\ (y # 0 /\ FitsInt32(Quot(x, y))) => Admits("div", x, y, RToInt(Quot(x, y))) /\ Admits("rem", x, y, RToInt(RSub(x, RMul(y, Quot(x, y)))))
    (* bit operations: De Morgan, x = (x and y) + (x and not y), xor = or minus and *)
    /\ LET not(v) == -1 - v IN
         /\ not(And32(x, y)) = Or32(not(x), not(y)) /\ not(Or32(x, y)) = And32(not(x), not(y))
         /\ Xor32(x, y) = And32(Or32(x, y), not(And32(x, y)))
         /\ And32(x, x) = x /\ Or32(x, 0) = x /\ Xor32(x, x) = 0 /\ And32(x, -1) = x
         /\ REq(RAdd(And32(x, y), And32(x, not(y))), RAdd(x, 0))
    (* shifts: right undoes left; right by k is floor division *)
    /\ y \in 0..31 => /\ LET l == RMul(x, RPow2(y)) IN FitsInt32(l) => Admits("shr", RToInt(l), y, x)
                      /\ Admits("shr", x, y, RToInt(RFloor(RDiv(x, RPow2(y)))))
                      /\ x < 0 => ~Admits("shr", x, y, 0)
    /\ IAbs(x, IF x < 0 /\ x # 0 - M - 1 THEN 0 - x ELSE x) /\ ISign(x, IF x > 0 THEN 1 ELSE IF x = 0 THEN 0 ELSE -1)
    /\ IMinV(x, y) <= x /\ IMinV(x, y) <= y /\ IMinV(x, y) \in {x, y} /\ IMaxV(x, y) >= x /\ IMaxV(x, y) >= y /\ IMaxV(x, y) \in {x, y}
Cmp(op, a, b) == \E z \in {<<0>>, <<1>>} : IntAllowed(op, <<a, b>>, z) /\ z = <<1>>
ExactlyOne(p, q, r) == (p /\ ~q /\ ~r) \/ (~p /\ q /\ ~r) \/ (~p /\ ~q /\ r)
(* a strict total order that agrees with equality; the six comparisons say the same *)
Order_ ==
  s[1] = "order" =>
    LET a == s[2] b == s[3] IN
    /\ ExactlyOne(LexLt(a, b), LexLt(b, a), a = b)
    /\ Cmp("lt", a, b) = LexLt(a, b) /\ Cmp("gt", a, b) = Cmp("lt", b, a) /\ Cmp("le", a, b) = ~Cmp("gt", a, b) /\ Cmp("ge", a, b) = ~Cmp("lt", a, b)
    /\ Cmp("eq", a, b) = (a = b) /\ Cmp("ne", a, b) = ~Cmp("eq", a, b) /\ (Cmp("le", a, b) /\ Cmp("ge", a, b)) = Cmp("eq", a, b)
    /\ \A c \in IF Len(a) = 2 THEN V2 ELSE V3 : LexLt(a, b) /\ LexLt(b, c) => LexLt(a, c)
    (* the first component that differs decides *)
    /\ LexLt(a, b) => \E i \in 1..Len(a) : a[i] < b[i]
    /\ a[1] < b[1] => LexLt(a, b)
LanesLaw ==
  s[1] = "lanes" =>
    LET a == s[2] b == s[3] k == s[4] IN
    (* a scalar operand acts on every lane; lanes do not see each other *)
    /\ Map2(LAMBDA x, y : x + y, a, <<k>>) = <<a[1] + k, a[2] + k>>
    /\ Map2(LAMBDA x, y : x - y, <<k>>, a) = <<k - a[1], k - a[2]>>
    /\ \A z \in V2 : IntAllowed("sub", <<a, b>>, z) => \A i \in 1..2 : IntAllowed("sub", <<<<a[i]>>, <<b[i]>>>>, <<z[i]>>)
    /\ IntAllowed("add", <<a, b>>, <<a[1] + b[1], a[2] + b[2]>>) /\ ~IntAllowed("add", <<a, b>>, <<a[1] + b[1], a[2] + b[2] + 1>>)
    /\ ~IntAllowed("add", <<a, b>>, <<a[1] + b[1]>>)
Booleans ==
  s[1] = "bool" =>
    LET a == s[2] b == s[3] R(op, x) == BoolResult(op, x) n(x) == R("not", <<x>>) IN
    /\ n(R("and", <<a, b>>)) = R("or", <<n(a), n(b)>>) /\ n(n(a)) = a
    /\ R("xor", <<a, b>>) = R("and", <<R("or", <<a, b>>), n(R("and", <<a, b>>))>>)
    /\ R("notEqual", <<a, b>>) = R("xor", <<a, b>>) /\ R("equal", <<a, b>>) = n(R("notEqual", <<a, b>>))
    /\ R("eq", <<a, b>>) = R("all", <<R("equal", <<a, b>>)>>) /\ R("ne", <<a, b>>) = R("any", <<R("notEqual", <<a, b>>)>>)
    /\ R("any", <<n(a)>>) # R("all", <<a>>)
    /\ R("all", <<a>>) = <<1>> <=> \A i \in 1..Len(a) : a[i] = 1
=============================================================================
