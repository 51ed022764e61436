SPECIFICATION Spec
CONSTANTS
  Kinds = {"p", "s", "d", "q"}
  MaxCmds = 5
  MaxOps = 3
  Emit = TRUE
  Big <- BigMC
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS Conserved InOrder Sent AtEnd Told Possible Wakes
CHECK_DEADLOCK FALSE
