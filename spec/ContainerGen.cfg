CONSTANTS
  Depth = 4
  Keys = {1, 2, 3, 4}
  Values = {5}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS OneEach Bounded Latest Emitted
CHECK_DEADLOCK FALSE
