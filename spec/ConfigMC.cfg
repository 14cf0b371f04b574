SPECIFICATION Spec
INVARIANTS InUse DefaultsUsable Rotation
CHECK_DEADLOCK FALSE
