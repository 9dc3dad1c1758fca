CONSTANTS
  K = 1
  Which = "L"
SPECIFICATION Spec
VIEW View
INVARIANTS NotFramed Genuine Emit
CHECK_DEADLOCK FALSE
