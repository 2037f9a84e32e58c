SPECIFICATION Spec
INVARIANTS Bounded Yields Stops Agree
PROPERTIES Frame
CHECK_DEADLOCK FALSE
