SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Mirrors Export
PROPERTY Grows
CHECK_DEADLOCK FALSE
