SPECIFICATION Spec
INVARIANTS InADay Back Moved Down Order Passing Days Cycle Nought There Whole Present
CHECK_DEADLOCK FALSE
