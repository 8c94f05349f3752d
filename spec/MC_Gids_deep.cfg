SPECIFICATION Spec
CONSTANTS N = 3
          Tables <- AllTables
INVARIANT NoOverlap AddedOnce OwnKept Designates NothingElse Export
PROPERTY GrowsOnly IdsKept
CHECK_DEADLOCK FALSE
