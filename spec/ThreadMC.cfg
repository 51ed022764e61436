SPECIFICATION Spec
CONSTANTS
  Bodies <- Small
  MaxCmds = 4
  Eager = FALSE
  Emit = FALSE
VIEW view
INVARIANTS Told Once After Joined Alone Owned Heard NoDeadlock Clean
CHECK_DEADLOCK FALSE
