SPECIFICATION TraceSpec
INVARIANT Shape
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
