SPECIFICATION Spec
CONSTANTS N = 3
          Sizes <- QSizes
          Places <- DPlaces
INVARIANT AllKept Export
PROPERTY InOrder
CHECK_DEADLOCK FALSE
