SPECIFICATION Spec
CONSTANTS
  Progs <- Deep
  MaxCmds = 6
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Once Outside Told Awake Clean
CHECK_DEADLOCK FALSE
