SPECIFICATION Spec
CONSTANTS
  Bound = 16
CONSTRAINT Small
INVARIANTS StagedBounded CountersAgree
PROPERTIES EntersLate LeavesLate WrittenOnlyThen
CHECK_DEADLOCK FALSE
