SPECIFICATION Spec
CONSTANT NPool = 16
INVARIANT AgreeInv
CHECK_DEADLOCK FALSE
