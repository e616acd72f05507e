SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
