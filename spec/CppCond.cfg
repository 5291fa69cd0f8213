SPECIFICATION Spec
INVARIANTS Agree ErrAgree DepthAgree
CHECK_DEADLOCK FALSE
