SPECIFICATION Spec
CONSTANTS
  Most = 3
  Deep = 14
INVARIANTS LostRight Refreshed Sane
PROPERTIES NoStaging Kept
CHECK_DEADLOCK FALSE
