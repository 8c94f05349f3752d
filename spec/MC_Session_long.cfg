SPECIFICATION Spec
CONSTANTS N = 7
          OnlyM = FALSE
INVARIANT Export
CHECK_DEADLOCK FALSE
