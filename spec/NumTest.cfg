INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Specials
CHECK_DEADLOCK FALSE
