SPECIFICATION Spec
CONSTANT Far = 1
INVARIANTS Sound Ends Nearest
CHECK_DEADLOCK FALSE
