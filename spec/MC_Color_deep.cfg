SPECIFICATION Spec
CONSTANTS Backs <- DBacks
          Eqs <- DEqs
INVARIANT InRange Denotes Equal Export
CHECK_DEADLOCK FALSE
