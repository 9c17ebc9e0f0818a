SPECIFICATION Spec
CONSTANTS
  Nibble = 2
  Byte = 2
  Min = 2
  MaxItems = 3
  MaxLit = 3
  MaxCopy = 4
  Letters = {0}
INVARIANTS RoundTrip Cuts Length
CHECK_DEADLOCK FALSE
