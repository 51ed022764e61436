SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxOps = 4
  Limits <- LimA
  Selects = FALSE
  MaxFaults = 2
  Emit = TRUE
INVARIANTS Conservation WritesExact ReadsExact Capacity NoLostWakeup Queued ClosedQueues
PROPERTIES FCFS Stable
ACTION_CONSTRAINT EmitGen
CHECK_DEADLOCK FALSE
