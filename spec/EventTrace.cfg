SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
