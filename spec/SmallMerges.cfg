SPECIFICATION Spec
INVARIANTS Never Properties RequiredNames FirstItems Adds Stays Grows
CHECK_DEADLOCK FALSE
