SPECIFICATION Spec
CONSTANTS
  Alphabet = {"%", "0", "1", "a"}
  MaxLen = 5
  Values = {"x", "%0"}
  MaxOps = 3
  Gen = FALSE
INVARIANTS Substitution StrictIffOpen
PROPERTIES ResetRestores
CHECK_DEADLOCK FALSE
VIEW NoHist
