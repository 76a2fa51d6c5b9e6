SPECIFICATION Spec
INVARIANTS Unary Binary Ternary Admission ArcTangent
CHECK_DEADLOCK FALSE
