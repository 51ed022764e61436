SPECIFICATION Spec
CONSTANTS
  MaxTotal = 4
  MaxSteps = 3
  MaxCmds = 6
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Wire Account Rest Result Awake
CHECK_DEADLOCK FALSE
