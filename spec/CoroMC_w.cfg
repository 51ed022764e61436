SPECIFICATION Spec
CONSTANTS
  Programs <- WProgs
  Cmds <- WCmds
  MaxCmds = 4
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS OnIts Inherit Clean Faithful Told Somewhere Posted Lazy SpawnOnce Order Pushes AllPushed Withs WithTold Grouped Gone Orphans
CHECK_DEADLOCK FALSE
