INIT Init
NEXT ContextNext
CHECK_DEADLOCK FALSE
