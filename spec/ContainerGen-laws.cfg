CONSTANTS
  Depth = 5
  Keys = {1, 2, 3, 4}
  Values = {5, 6}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS OneEach Bounded Latest
CHECK_DEADLOCK FALSE
