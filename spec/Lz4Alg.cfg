SPECIFICATION Spec
CONSTANTS
  Nibble = 2
  Byte = 2
  Min = 2
  MaxItems = 2
  MaxLit = 5
  MaxCopy = 7
  Letters = {0}
INVARIANTS RoundTrip Cuts Length
CHECK_DEADLOCK FALSE
