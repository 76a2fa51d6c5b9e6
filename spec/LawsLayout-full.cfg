CONSTANTS
  Depth = 4
  Shapes = {2, 3, 4, 44, 33}
SPECIFICATION Spec
INVARIANT Views
CHECK_DEADLOCK FALSE
