SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AccountingInv OrderInv CapacityInv FMInv
