SPECIFICATION Spec
CONSTANTS Modes <- DModes
          Kinds <- AllKinds
          PNames = {"a", "b"}
          PVals <- DVals
INVARIANT Denoted InstanceWins Export
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
