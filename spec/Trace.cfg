INIT Init
NEXT Next
CONSTANT RegHas <- TraceRegHas
VIEW view
CONSTRAINT Progress
CONSTRAINT Within
POSTCONDITION Report
CHECK_DEADLOCK FALSE
