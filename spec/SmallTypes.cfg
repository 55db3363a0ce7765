SPECIFICATION Spec
INVARIANTS Reversed Nullable OneIsAll NoOther AtMostOne Declared
CHECK_DEADLOCK FALSE
