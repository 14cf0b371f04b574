SPECIFICATION Spec
INVARIANTS Converges Bounded Forgets
CHECK_DEADLOCK FALSE
