SPECIFICATION Spec
CONSTANTS Bytes <- QBytes
          Alpha <- QAlpha
          Sizes <- QSizes
INVARIANT Gathered RowShape RowMajor Whole InRange Export
CHECK_DEADLOCK FALSE
