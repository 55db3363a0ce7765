SPECIFICATION Spec
INVARIANTS SameOrNone NotNothing Required Absent Monotone Lengths OneOfThem TypeIsRight
CHECK_DEADLOCK FALSE
