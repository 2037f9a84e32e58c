SPECIFICATION CSpec
INVARIANT Ended
PROPERTY OnlyEnds
CHECK_DEADLOCK FALSE
