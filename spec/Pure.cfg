SPECIFICATION Spec
INVARIANT Conformance
CHECK_DEADLOCK FALSE
