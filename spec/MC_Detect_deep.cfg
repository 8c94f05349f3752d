SPECIFICATION Spec
CONSTANTS MaxLead = 3
          Roles <- AllRoles
          Fmts <- AllFmts
          NameKinds <- AllNames
INVARIANT Agrees ByContent Export
CHECK_DEADLOCK FALSE
