CONSTANT Full = TRUE
SPECIFICATION Spec
INVARIANTS Vectors RefractLaw Geometry Matrices
CHECK_DEADLOCK FALSE
