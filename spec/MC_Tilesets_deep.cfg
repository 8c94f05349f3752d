SPECIFICATION Spec
CONSTANTS N = 3
          Hows <- AllHows
          Places <- DPlaces
          Firsts <- QFirsts
INVARIANT OneEach Under SameAnywhere Export
PROPERTY Stays
CHECK_DEADLOCK FALSE
