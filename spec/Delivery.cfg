INIT Init
NEXT DeliveryNext
CHECK_DEADLOCK FALSE
