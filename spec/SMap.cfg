CONSTANTS
  Slice = "build"
  K = 1
SPECIFICATION Spec
INVARIANTS Emit RoundTrip NoMerge OrderFree
CHECK_DEADLOCK FALSE
