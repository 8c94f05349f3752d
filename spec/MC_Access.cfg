SPECIFICATION Spec
INVARIANTS OnlyReached AllReached Unnamed Export
CHECK_DEADLOCK FALSE
