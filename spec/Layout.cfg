INIT Init
NEXT LayoutNext
CHECK_DEADLOCK FALSE
