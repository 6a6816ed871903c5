INIT SetPartInit
NEXT SetPartNext
CHECK_DEADLOCK FALSE
