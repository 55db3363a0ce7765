SPECIFICATION Spec
INVARIANTS Counted OnceEach Tree InPlace Same
CHECK_DEADLOCK FALSE
