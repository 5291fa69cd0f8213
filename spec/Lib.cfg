SPECIFICATION Spec
INVARIANTS TypeOK Distinct
VIEW View
CHECK_DEADLOCK FALSE
