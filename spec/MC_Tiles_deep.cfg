SPECIFICATION Spec
CONSTANTS N = 3
          Ids = {0, 3, 12}
          Parts <- AllParts
          FullFor = 1
INVARIANT Keyed OwnData FromNothing Export
PROPERTY Filed
CHECK_DEADLOCK FALSE
