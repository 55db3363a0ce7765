SPECIFICATION Spec
INVARIANTS NullIsMissing OnlyX DefaultLast NothingYields TransformFirst FirstYields LastIsFirstReversed OneSource Concatenates FalsyCounts
CHECK_DEADLOCK FALSE
