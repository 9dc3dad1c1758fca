CONSTANTS
  Slice = "honest"
  K = 1
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Emit NoFalseBlame AllFinish Agreement Reported JudgeSound
CHECK_DEADLOCK FALSE
