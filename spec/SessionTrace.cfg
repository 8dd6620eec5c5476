SPECIFICATION TSpec
CONSTANTS MaxCalls = 1000 Least = 1000
CONSTANT Ops <- Full
VIEW View
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
