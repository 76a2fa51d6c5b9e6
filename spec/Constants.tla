----------------------------- MODULE Constants -----------------------------
(* The named constants: the single-precision number nearest to each.          *)
EXTENDS Binary32
(* Euler's constant to 60 digits (not an elementary value): 0.57721566490153286060651209008240243104215933593992... *)
EulerGamma == RDiv(RAdd(RMul(57721566, RMul(100000000, 100000000)), RAdd(RMul(49015328, 100000000), 60606512)),
                   RMul(100000000, RMul(100000000, 100000000)))
Sqrt(n) == RSqrt(RAdd(n, 0))
ConstantReal(op) ==
  CASE op = "epsilon" -> RPow2(-23)
    [] op = "zero" -> RAdd(0, 0)
    [] op = "one" -> RAdd(1, 0)
    [] op = "pi" -> RPi
    [] op = "two_pi" -> RMul(2, RPi)
    [] op = "root_pi" -> RSqrt(RPi)
    [] op = "half_pi" -> RDiv(RPi, 2)
    [] op = "three_over_two_pi" -> RDiv(RMul(3, RPi), 2)
    [] op = "quarter_pi" -> RDiv(RPi, 4)
    [] op = "one_over_pi" -> RDiv(1, RPi)
    [] op = "one_over_two_pi" -> RDiv(1, RMul(2, RPi))
    [] op = "two_over_pi" -> RDiv(2, RPi)
    [] op = "four_over_pi" -> RDiv(4, RPi)
    [] op = "two_over_root_pi" -> RDiv(2, RSqrt(RPi))
    [] op = "one_over_root_two" -> RDiv(1, Sqrt(2))
    [] op = "root_half_pi" -> RSqrt(RDiv(RPi, 2))
    [] op = "root_two_pi" -> RSqrt(RMul(2, RPi))
    [] op = "root_ln_four" -> RSqrt(RLog(4))
    [] op = "e" -> RExp(1)
    [] op = "euler" -> EulerGamma
    [] op = "root_two" -> Sqrt(2)
    [] op = "root_three" -> Sqrt(3)
    [] op = "root_five" -> Sqrt(5)
    [] op = "ln_two" -> RLog(2)
    [] op = "ln_ten" -> RLog(10)
    [] op = "ln_ln_two" -> RLog(RLog(2))
    [] op = "third" -> RDiv(1, 3)
    [] op = "two_thirds" -> RDiv(2, 3)
    [] op = "golden_ratio" -> RDiv(RAdd(1, Sqrt(5)), 2)
ConstantNames == {"epsilon", "zero", "one", "pi", "two_pi", "root_pi", "half_pi", "three_over_two_pi", "quarter_pi",
  "one_over_pi", "one_over_two_pi", "two_over_pi", "four_over_pi", "two_over_root_pi", "one_over_root_two", "root_half_pi",
  "root_two_pi", "root_ln_four", "e", "euler", "root_two", "root_three", "root_five", "ln_two", "ln_ten", "ln_ln_two",
  "third", "two_thirds", "golden_ratio"}
ConstantResult(op) == <<IF op = "zero" THEN PZero ELSE Round32(ConstantReal(op))>>
=============================================================================
