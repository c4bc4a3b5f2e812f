
INIT Init
NEXT Next
