SPECIFICATION Spec
VIEW View
INVARIANT MachineOK
CHECK_DEADLOCK FALSE
