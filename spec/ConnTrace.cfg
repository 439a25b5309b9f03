SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT DropAborted = TRUE
INVARIANT Report
