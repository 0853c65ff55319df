INIT Init
NEXT ModesNext
CHECK_DEADLOCK FALSE
