SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Nesting
INVARIANT Finished
CHECK_DEADLOCK FALSE
