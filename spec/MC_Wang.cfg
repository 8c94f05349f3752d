SPECIFICATION Spec
CONSTANTS N = 3
INVARIANT Complete WholeIds Export
PROPERTY Closed
CHECK_DEADLOCK FALSE
