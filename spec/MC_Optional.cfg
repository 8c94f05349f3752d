SPECIFICATION Spec
CONSTANTS Steps = 2
          Modes <- BothModes
INVARIANT Written Export
PROPERTY Independent
CHECK_DEADLOCK FALSE
