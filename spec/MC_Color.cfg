SPECIFICATION Spec
CONSTANTS Backs <- QBacks
          Eqs <- QEqs
INVARIANT InRange Denotes Equal Export
CHECK_DEADLOCK FALSE
