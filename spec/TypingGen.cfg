SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Weakening Instances TypeInstances Vacuous Emit
