SPECIFICATION Spec
CONSTANTS MaxMaps = 1
          MaxPats = 2
          MaxEntries = 2
VIEW ScanView
INVARIANT Whole NoDirs ExplicitKept Export
CHECK_DEADLOCK FALSE
