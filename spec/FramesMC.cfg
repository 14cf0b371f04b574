SPECIFICATION Spec
CONSTANTS
  Q = 1
  T = 1
INVARIANTS Rigid ThereAndBack BackAndThere PlanesFollow Centre
CHECK_DEADLOCK FALSE
