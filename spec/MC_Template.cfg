SPECIFICATION Spec
CONSTANTS Modes <- QModes
          Kinds <- AllKinds
          PNames = {"a", "b"}
          PVals <- QVals
INVARIANT Denoted InstanceWins Export
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
