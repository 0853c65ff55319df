INIT Begin
NEXT Observe
CHECK_DEADLOCK FALSE
