SPECIFICATION Sys
CONSTANTS
  NT = 2
  NX = 2
  W1 = TRUE
  W2 = TRUE
  W3 = TRUE
  LK = TRUE
  CLR = FALSE
  TABLE = 2
INVARIANTS NoConflict Serial LowRight Drained
