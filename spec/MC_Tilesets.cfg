SPECIFICATION Spec
CONSTANTS N = 2
          Hows <- AllHows
          Places <- QPlaces
          Firsts <- QFirsts
INVARIANT OneEach Under SameAnywhere Export
PROPERTY Stays
CHECK_DEADLOCK FALSE
