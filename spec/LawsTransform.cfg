CONSTANT Full = FALSE
SPECIFICATION Spec
INVARIANTS Algebra Rotation Angle Euler_ View Project Compose Slerp_
CHECK_DEADLOCK FALSE
