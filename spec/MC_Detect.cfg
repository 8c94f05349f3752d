SPECIFICATION Spec
CONSTANTS MaxLead = 1
          Roles <- AllRoles
          Fmts <- AllFmts
          NameKinds <- AllNames
INVARIANT Agrees ByContent Export
CHECK_DEADLOCK FALSE
