SPECIFICATION Spec
CONSTANTS Steps = 3
          Modes <- BothModes
INVARIANT Written Export
PROPERTY Independent
CHECK_DEADLOCK FALSE
