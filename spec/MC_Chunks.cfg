SPECIFICATION Spec
CONSTANTS N = 2
          Sizes <- QSizes
          Places <- QPlaces
INVARIANT AllKept Export
PROPERTY InOrder
CHECK_DEADLOCK FALSE
