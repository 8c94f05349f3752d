SPECIFICATION Spec
CONSTANTS N = 4
INVARIANT Complete WholeIds Export
PROPERTY Closed
CHECK_DEADLOCK FALSE
