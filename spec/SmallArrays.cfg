SPECIFICATION Spec
INVARIANTS NoneEmpty NoNulls1 PerItem AloneIsOne DefaultIsValue FromElsewhere
CHECK_DEADLOCK FALSE
