SPECIFICATION Spec
INVARIANTS Sure Closed Lengths Loosely Grows Never Apart Divided Scalars Implemented Deprecated
CHECK_DEADLOCK FALSE
