SPECIFICATION Spec
CONSTANTS N = 2
          Tables <- AllTables
INVARIANT NoOverlap AddedOnce OwnKept Designates NothingElse Export
PROPERTY GrowsOnly IdsKept
CHECK_DEADLOCK FALSE
