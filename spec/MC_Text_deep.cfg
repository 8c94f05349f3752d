SPECIFICATION Spec
CONSTANTS Len0 = 3
          Full = 2
INVARIANTS Verbatim Export
CHECK_DEADLOCK FALSE
