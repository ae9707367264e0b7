SPECIFICATION Spec
CONSTANTS
  P = {p1, p2, p3}
  N = 3
  Timeouts = FALSE
PROPERTY Served
CHECK_DEADLOCK FALSE
