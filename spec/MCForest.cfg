SPECIFICATION Spec
CONSTANTS MAXSET = 1
          MAXLEV = 3
          Family = 1
          ExecNodes = {1,3}
          NCFG = 6
INVARIANTS Sound AbortQuiet NeverCaches FailsTold Repeatable KeptByPolicy RidersTargeted
CHECK_DEADLOCK FALSE
