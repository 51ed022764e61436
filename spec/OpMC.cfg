SPECIFICATION Spec
CONSTANTS
  Progs <- Quick
  MaxCmds = 4
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Once Outside Told Awake Clean
CHECK_DEADLOCK FALSE
