SPECIFICATION Spec
CONSTANTS Modes <- AllModes
          MaxPoints = 3
          Coords <- DCoords
INVARIANT OneKind PointsKept Export
PROPERTY Independent
CHECK_DEADLOCK FALSE
