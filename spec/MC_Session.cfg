SPECIFICATION Spec
CONSTANTS N = 3
          OnlyM = FALSE
INVARIANT Export
PROPERTIES HeldStays LoadsPresent
CHECK_DEADLOCK FALSE
