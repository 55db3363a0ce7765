SPECIFICATION Spec
INVARIANTS TagsWithin Texts Stars Required Tags NoField NullsAreNil Flat Renames Imports Apart Files Bad
CHECK_DEADLOCK FALSE
