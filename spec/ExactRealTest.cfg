SPECIFICATION Spec
CONSTANT NPool = 7
INVARIANT AgreeInv
CHECK_DEADLOCK FALSE
