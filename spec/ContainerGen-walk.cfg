CONSTANTS
  Depth = 40
  Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Values = {5, 6, 7}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS OneEach Bounded Emitted
CHECK_DEADLOCK FALSE
