SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK SameSurface Normal RoundTrip Invariant Symmetric Disjoint Reversible Coordinates TwistFormula HalfSquare FlipsCommute
CONSTRAINT Near
