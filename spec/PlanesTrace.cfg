SPECIFICATION Spec
CONSTANTS
  Wc = 32
  Hc = 24
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
