SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Near
INVARIANTS TypeOK Normal RoundTrip Invariant Disjoint
