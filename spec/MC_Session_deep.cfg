SPECIFICATION Spec
CONSTANTS N = 4
          OnlyM = FALSE
INVARIANT Export
PROPERTIES HeldStays LoadsPresent
CHECK_DEADLOCK FALSE
