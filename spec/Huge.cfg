SPECIFICATION HSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
