SPECIFICATION Spec
CONSTANTS MaxCalls = 4 Least = 4
CONSTANT Ops <- Basic
INVARIANT Sound
INVARIANT Told
PROPERTY Frozen
CHECK_DEADLOCK FALSE
