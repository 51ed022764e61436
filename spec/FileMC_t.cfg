SPECIFICATION Spec
VIEW view
CONSTANTS
 MaxCmds = 5
 MaxOps = 3
 FilesMC = {0, 1, 2}
 Types = {"s", "r"}
 Emit = TRUE
ACTION_CONSTRAINT EmitGen
INVARIANTS Contents Read AtEnd GoesOn ReadOnly Positions Idle
CHECK_DEADLOCK FALSE
