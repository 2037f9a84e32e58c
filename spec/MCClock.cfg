SPECIFICATION Spec
INVARIANTS Restores ResolveFirst WindowFirst
PROPERTY Follows
CHECK_DEADLOCK FALSE
