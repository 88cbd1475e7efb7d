SPECIFICATION Spec
CONSTANTS H = {"a", "b", "c"}
          DEPTH = 5
          EMIT = FALSE
          FLAW = ""
INVARIANTS ValueSemantics RefCounts NoOrphans
CHECK_DEADLOCK FALSE
