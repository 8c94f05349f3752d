SPECIFICATION Spec
CONSTANTS Elems = 3
          Comments = 2
          Attrs = 2
          Keys = 3
INVARIANTS SameMeaning Export
CHECK_DEADLOCK FALSE
