SPECIFICATION Spec
INVARIANTS Scalar Order_ LanesLaw Booleans
CHECK_DEADLOCK FALSE
