SPECIFICATION Spec
CONSTANTS Modes <- AllModes
          MaxPoints = 2
          Coords <- QCoords
INVARIANT OneKind PointsKept Export
PROPERTY Independent
CHECK_DEADLOCK FALSE
