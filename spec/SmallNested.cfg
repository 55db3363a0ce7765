SPECIFICATION Spec
INVARIANTS PerItem NothingElse FromElsewhere InnerFilled
CHECK_DEADLOCK FALSE
