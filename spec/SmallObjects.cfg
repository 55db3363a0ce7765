SPECIFICATION Spec
INVARIANTS FieldsOverBase BaseIsEither NothingFound NullIsMissing Siblings OnlyDeclared NoEmpty AllFrom
CHECK_DEADLOCK FALSE
