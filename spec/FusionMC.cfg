SPECIFICATION Spec
INVARIANTS Sane Information Order Inverse
CHECK_DEADLOCK FALSE
