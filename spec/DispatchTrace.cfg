SPECIFICATION Spec
INVARIANT Judge
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
CONSTANT Wakes = FALSE
