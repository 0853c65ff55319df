INIT Init
NEXT SweepNext
CHECK_DEADLOCK FALSE
