SPECIFICATION Spec
CONSTANTS
  Mod = 256
  Pay = 5
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
