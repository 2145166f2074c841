SPECIFICATION Spec
INVARIANTS Agree Axioms
CHECK_DEADLOCK FALSE
