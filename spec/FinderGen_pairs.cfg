SPECIFICATION Spec
CONSTANT Finders = {"F"} Depth = 4 Shared = FALSE
VIEW PairView
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
