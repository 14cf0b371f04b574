SPECIFICATION Spec
CONSTANT Most = 4
INVARIANTS Good Distinguishes
CHECK_DEADLOCK FALSE
