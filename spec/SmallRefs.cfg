SPECIFICATION Spec
INVARIANTS Relative NoneLeft FailsExactly SaysFrom InPlace Alone Others
CHECK_DEADLOCK FALSE
