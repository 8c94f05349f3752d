SPECIFICATION Spec
CONSTANTS Len0 = 2
          Full = 1
INVARIANTS Verbatim Export
CHECK_DEADLOCK FALSE
