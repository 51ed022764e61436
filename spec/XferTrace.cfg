SPECIFICATION Spec
CONSTRAINT Record
POSTCONDITION Report
CHECK_DEADLOCK FALSE
