SPECIFICATION Spec
INVARIANT NeverHalf SavedLoads Export
CHECK_DEADLOCK FALSE
