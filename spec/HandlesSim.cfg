SPECIFICATION Spec
CONSTANTS H = {"a", "b", "c"}
          DEPTH = 14
          EMIT = TRUE
          FLAW = ""
INVARIANTS ValueSemantics RefCounts NoOrphans
CHECK_DEADLOCK FALSE
