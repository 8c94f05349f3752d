SPECIFICATION Spec
CONSTANTS N = 2
          Names = {"a", "b%20c", "value"}
          Full = 1
INVARIANT MapOfList ObjSame Complete Export
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
