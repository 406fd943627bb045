SPECIFICATION Spec
INVARIANT Antisymmetric Transitive StrictWeak
CHECK_DEADLOCK FALSE
