SPECIFICATION Spec
CONSTANTS Segs = {".", "..", "d", "l"}
          MaxSegs = 2
          Vias <- AllVias
INVARIANT WalkedTo Reported Export
CHECK_DEADLOCK FALSE
