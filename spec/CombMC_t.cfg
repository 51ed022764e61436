SPECIFICATION Spec
CONSTANTS
  Trees <- AllTrees
  Scripts <- ScSome
  MaxFaults = 1
  MaxTx = 1
  Emit = TRUE
VIEW view
ACTION_CONSTRAINT EmitGen
INVARIANTS FirstWins LeftOrder AllDone Everything Undisturbed FirstError Told
PROPERTY After
CHECK_DEADLOCK FALSE
