SPECIFICATION Spec
CONSTANTS Segs = {".", "..", "d", "l"}
          MaxSegs = 1
          Vias <- AllVias
INVARIANT WalkedTo Reported Export
CHECK_DEADLOCK FALSE
