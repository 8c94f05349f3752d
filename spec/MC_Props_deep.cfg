SPECIFICATION Spec
CONSTANTS N = 3
          Names = {"a", "b%20c", "value"}
          Full = 2
INVARIANT MapOfList ObjSame Complete Export
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
