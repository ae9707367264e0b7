SPECIFICATION Spec
CONSTANTS
  P = {p1, p2, p3}
  N = 3
  Timeouts = TRUE
INVARIANTS Exclusion GrantExclusion NoLostWakeup NodesKept Linked
CHECK_DEADLOCK FALSE
