--------------------------------- MODULE Zcm ---------------------------------
(* The library as a relation between the arguments of a call and the values it *)
(* leaves behind.  A call has a class and an operation, letter parameters p    *)
(* (component names), the values a of its arguments before the call, and the   *)
(* values r it produced: for an in-place form the new value of its target,     *)
(* then the returned value if there is one.                                    *)
EXTENDS IntOps, BoolOps, FloatOps, Layout, Common, Elementary, Constants, Quaternions, Color

IntBinary  == {"add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr"}
(* one step up or down, in the arithmetic of the type *)
StepBy(isInt, v, d, z) ==
  IF isInt THEN Rel1(LAMBDA x, y : Fits(RAdd(x, d), y), v, z)
  ELSE z = Map1(LAMBDA x : FAdd(x, IF d = 1 THEN One ELSE MOne), v)
ArithAllowed(isInt, op, x, y, z) ==
  IF isInt THEN IntAllowed(op, <<x, y>>, z) ELSE z = FloatResult(op, <<x, y>>)
IncAllowed(isInt, op, a, r) ==
  CASE op = "preinc"  -> StepBy(isInt, a[1], 1, r[1])  /\ r[2] = <<1>> /\ r[3] = r[1]
    [] op = "predec"  -> StepBy(isInt, a[1], -1, r[1]) /\ r[2] = <<1>> /\ r[3] = r[1]
    [] op = "postinc" -> StepBy(isInt, a[1], 1, r[1])  /\ r[2] = a[1]
    [] op = "postdec" -> StepBy(isInt, a[1], -1, r[1]) /\ r[2] = a[1]
(* updates of one component through its accessor *)
CompUpdated(a, r, p, Ok(_)) ==
  LET k == NameIndex(p) IN
  Len(r) = Len(a) /\ Ok(r[k]) /\ \A i \in 1..Len(a) : i # k => r[i] = a[i]
AccAllowed(isInt, op, p, a, r) ==
  LET k == NameIndex(p[1]) v == a[1] x == <<v[k]>> IN
  CASE op \in IntBinary -> CompUpdated(v, r[1], p[1], LAMBDA y : ArithAllowed(isInt, op, x, a[2], <<y>>))
    [] op = "addc" -> CompUpdated(v, r[1], p[1], LAMBDA y : ArithAllowed(isInt, "add", x, <<a[2][NameIndex(p[2])]>>, <<y>>))
    [] op = "subc" -> CompUpdated(v, r[1], p[1], LAMBDA y : ArithAllowed(isInt, "sub", x, <<a[2][NameIndex(p[2])]>>, <<y>>))
    [] op = "mulc" -> CompUpdated(v, r[1], p[1], LAMBDA y : ArithAllowed(isInt, "mul", x, <<a[2][NameIndex(p[2])]>>, <<y>>))
    [] op = "preinc"  -> CompUpdated(v, r[1], p[1], LAMBDA y : StepBy(isInt, x, 1, <<y>>))  /\ r[2] = <<r[1][k]>>
    [] op = "predec"  -> CompUpdated(v, r[1], p[1], LAMBDA y : StepBy(isInt, x, -1, <<y>>)) /\ r[2] = <<r[1][k]>>
    [] op = "postinc" -> CompUpdated(v, r[1], p[1], LAMBDA y : StepBy(isInt, x, 1, <<y>>))  /\ r[2] = x
    [] op = "postdec" -> CompUpdated(v, r[1], p[1], LAMBDA y : StepBy(isInt, x, -1, <<y>>)) /\ r[2] = x
    [] op \in {"preincw", "predecw"} -> CompUpdated(v, r[1], p[1], LAMBDA y : y = a[2][1])   \* ++a.x = b
(* the right operand is a component of the target *)
AliasAllowed(isInt, op, p, a, r) ==
  LET y == <<a[1][NameIndex(p[1])]>> IN
  CASE op = "band" -> r[1] = BoolResult("and", <<a[1], y>>)
    [] op = "bor"  -> r[1] = BoolResult("or", <<a[1], y>>)
    [] op = "bxor" -> r[1] = BoolResult("xor", <<a[1], y>>)
    [] OTHER       -> ArithAllowed(isInt, op, a[1], y, r[1])

Allowed(c, op, p, a, r) ==
  CASE c = "f"   -> Len(r) = 1 /\ r[1] = FloatResult(op, a)
    [] c = "i"   -> Len(r) = 1 /\ IntAllowed(op, a, r[1])
    [] c = "b"   -> Len(r) = 1 /\ r[1] = BoolResult(op, a)
    [] c \in {"k", "swz"} -> LayoutAllowed(op, p, a, r)
    [] c = "inc" -> IncAllowed(FALSE, op, a, r)
    [] c = "iinc" -> IncAllowed(TRUE, op, a, r)
    [] c = "c"   -> AccAllowed(FALSE, op, p, a, r)
    [] c = "ic"  -> AccAllowed(TRUE, op, p, a, r)
    [] c \in {"al", "alx"} -> AliasAllowed(FALSE, op, p, a, r)
    [] c \in {"ial", "ialx"} -> AliasAllowed(TRUE, op, p, a, r)
    [] c = "r"   -> RoundAllowed(op, a, r[1])
    [] c = "s"   -> SelectAllowed(op, a, r[1])
    [] c = "rel" -> r[1] = RelationResult(op, a)
    [] c = "red" -> ReduceAllowed(op, a, r[1])
    [] c \in {"ir", "is"} -> IntCommonAllowed(op, a, r[1])
    [] c = "ired" -> IntReduceAllowed(op, a, r[1])
    [] c \in {"e", "t"} -> ElementaryAllowed(op, a, r[1])
    [] c = "g"   -> GeomAllowed(op, a, r[1])
    [] c = "m"   -> MatAllowed(op, a, r[1])
    [] c = "x"   -> TransformAllowed(op, a, r)
    [] c = "q"   -> QuatAllowed(op, a, r)
    [] c = "col" -> ColorAllowed(op, a, r[1])
    [] c = "const" -> r[1] = ConstantResult(op)
=============================================================================
