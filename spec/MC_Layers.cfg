SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Mirrors Export
PROPERTY Grows
CHECK_DEADLOCK FALSE
