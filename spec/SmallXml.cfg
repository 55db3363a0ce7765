SPECIFICATION Spec
INVARIANTS Missing ScalarOfOne FirstOfSome PerElement NoObject
CHECK_DEADLOCK FALSE
