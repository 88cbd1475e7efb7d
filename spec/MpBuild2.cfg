SPECIFICATION Sys
CONSTANTS
  NT = 2
  NX = 3
  W1 = TRUE
  W2 = TRUE
  W3 = TRUE
  LK = TRUE
  CLR = TRUE
  TABLE = 3
INVARIANTS NoConflict Serial LowRight Drained
