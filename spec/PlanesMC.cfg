SPECIFICATION Spec
CONSTANTS
  Wc = 3
  Hc = 2
  MinSize = 2
INVARIANTS Sound Once Complete Cover Bins
CHECK_DEADLOCK FALSE
