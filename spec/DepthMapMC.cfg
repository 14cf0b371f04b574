SPECIFICATION Spec
INVARIANTS Bijection Same Shift Behind
CHECK_DEADLOCK FALSE
