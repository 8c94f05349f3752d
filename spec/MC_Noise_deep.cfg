SPECIFICATION Spec
CONSTANTS Elems = 12
          Comments = 3
          Attrs = 7
          Keys = 8
INVARIANTS SameMeaning Export
CHECK_DEADLOCK FALSE
