INIT CompInit
NEXT CompNext
CHECK_DEADLOCK FALSE
