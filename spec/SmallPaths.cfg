SPECIFICATION Spec
INVARIANTS OneThing FirstOfMany NoneOfMany AllOfMany Deeper
CHECK_DEADLOCK FALSE
