SPECIFICATION Spec
CONSTANTS
  MaxTotal = 3
  MaxSteps = 2
  MaxCmds = 4
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Wire Account Rest Result Awake
CHECK_DEADLOCK FALSE
