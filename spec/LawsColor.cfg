SPECIFICATION Spec
INVARIANTS Curve ConstantLaw
CHECK_DEADLOCK FALSE
