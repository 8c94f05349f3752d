SPECIFICATION Spec
CONSTANTS Docs = {1, 2, 3}
INVARIANTS TilesSame PropsSame LeftOut Export
CHECK_DEADLOCK FALSE
