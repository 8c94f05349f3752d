SPECIFICATION Spec
CONSTANTS Switches = 2
          Coarse = 37
INVARIANTS Own WholeLoads Export
CHECK_DEADLOCK FALSE
