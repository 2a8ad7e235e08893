INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW TracePos
