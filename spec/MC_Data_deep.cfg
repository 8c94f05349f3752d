SPECIFICATION Spec
CONSTANTS Bytes <- DBytes
          Alpha <- DAlpha
          Sizes <- DSizes
INVARIANT Gathered RowShape RowMajor Whole InRange Export
CHECK_DEADLOCK FALSE
