SPECIFICATION Sys
CONSTANTS NT = 2 NX = 2 LEVEL = 2 ZDD = FALSE W1 = TRUE W2 = TRUE W3 = TRUE W4 = TRUE
INVARIANTS NoConflict SameContent LowUse Canonical Drained
CHECK_DEADLOCK TRUE
