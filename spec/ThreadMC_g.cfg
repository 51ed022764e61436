SPECIFICATION Spec
CONSTANTS
  Bodies <- Quick
  MaxCmds = 5
  Eager = TRUE
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Told Once After Joined Alone Owned Heard NoDeadlock Clean
CHECK_DEADLOCK FALSE
