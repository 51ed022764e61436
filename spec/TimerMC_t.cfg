SPECIFICATION Spec
VIEW view
CONSTANTS
 Kinds = {"t", "g"}
 MaxCmds = 6
 MaxOps = 3
 Emit = TRUE
ACTION_CONSTRAINT EmitGen
INVARIANTS Early Late AtOnceMC Current Owned Stopped Kept Awake Registered
CHECK_DEADLOCK FALSE
