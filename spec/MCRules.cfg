SPECIFICATION Spec
INVARIANTS Ordered CavokMeans
PROPERTY Grows
CHECK_DEADLOCK FALSE
