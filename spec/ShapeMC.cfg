SPECIFICATION Spec
INVARIANTS Rigid Sizes Consistent Around Falls Bumps
CHECK_DEADLOCK FALSE
