SPECIFICATION Spec
CONSTANT N = 1234567
INVARIANT Agree
CHECK_DEADLOCK FALSE
