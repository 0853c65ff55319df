INIT Init
NEXT LooseNext
CHECK_DEADLOCK FALSE
