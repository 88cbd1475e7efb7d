SPECIFICATION Sys
CONSTANTS NT = 3 NX = 3 LEVEL = 2 ZDD = TRUE W1 = TRUE W2 = TRUE W3 = TRUE W4 = TRUE
INVARIANTS NoConflict SameContent LowUse Canonical Drained
CHECK_DEADLOCK TRUE
