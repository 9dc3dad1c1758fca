CONSTANTS
  Slice = "orderL"
  K = 1
  Deep = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePerSender NotTwice LiveNotBanned FinalizableIffAll HonestNotBlamed CachedElsewhere ReportSound
CHECK_DEADLOCK FALSE
