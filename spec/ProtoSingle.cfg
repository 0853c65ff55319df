INIT Init
NEXT SingleNext
CHECK_DEADLOCK FALSE
