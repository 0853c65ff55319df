INIT Init
NEXT TruncationNext
CHECK_DEADLOCK FALSE
