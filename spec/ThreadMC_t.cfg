SPECIFICATION Spec
CONSTANTS
  Bodies <- Deep
  MaxCmds = 5
  Eager = FALSE
  Emit = FALSE
VIEW view
INVARIANTS Told Once After Joined Alone Owned Heard NoDeadlock Clean
CHECK_DEADLOCK FALSE
