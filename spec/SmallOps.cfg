SPECIFICATION Spec
INVARIANTS FirstFails NothingIn Kinds Twice CaseLast SplitJoins AsType
CHECK_DEADLOCK FALSE
