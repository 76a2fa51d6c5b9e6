SPECIFICATION Spec
INVARIANTS Rational Roots Functional Derived Small Period Format Rounding Bits BallArith
CHECK_DEADLOCK FALSE
