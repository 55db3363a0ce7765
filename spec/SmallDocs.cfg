SPECIFICATION Spec
INVARIANTS Keywords Roots Combines Fewer AsLoaded
CHECK_DEADLOCK FALSE
