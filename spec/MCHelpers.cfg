SPECIFICATION Spec
INVARIANTS CutsLoseNothing NoKeywordNoCut Counted Ordered Joining Commute
CHECK_DEADLOCK FALSE
