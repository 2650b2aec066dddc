SPECIFICATION Spec
CONSTANTS
  Cap = 4
  MaxItems = 5
  MaxReplies = 2
INVARIANTS Ordered Once NothingLost Bounded NewestSurvives
PROPERTIES LossIsOldest Drains
CHECK_DEADLOCK FALSE
