SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxOps = 3
  Limits <- LimB
  Selects = TRUE
  MaxFaults = 0
  Emit = TRUE
INVARIANTS Conservation WritesExact ReadsExact Capacity NoLostWakeup Queued ClosedQueues
PROPERTIES FCFS Stable
ACTION_CONSTRAINT EmitGen
CHECK_DEADLOCK FALSE
