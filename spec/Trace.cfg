SPECIFICATION Spec
CONSTANT Wide = FALSE
CHECK_DEADLOCK FALSE
