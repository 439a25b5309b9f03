SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT DropAborted = FALSE
INVARIANT Report
