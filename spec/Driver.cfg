CONSTANTS
  Slice = "flow"
  K = 1
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Returns SentRight SentAll CancelSeen
CHECK_DEADLOCK FALSE
