SPECIFICATION Spec
CONSTANTS Switches = 1
          Coarse = 1
INVARIANTS Own WholeLoads Export
CHECK_DEADLOCK FALSE
