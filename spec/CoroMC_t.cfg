SPECIFICATION Spec
CONSTANTS
  Programs <- TProgs
  Cmds <- TCmds
  MaxCmds = 5
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS OnIts Inherit Clean Faithful Told Somewhere Posted Lazy SpawnOnce Order Pushes AllPushed Withs WithTold Grouped Gone Orphans
CHECK_DEADLOCK FALSE
