CONSTANTS
  Dirs = {"plain", "with space", "littered", "file"}
  Depth = 3
SPECIFICATION Spec
INVARIANTS Holds Emitted
CHECK_DEADLOCK FALSE
