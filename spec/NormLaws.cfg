SPECIFICATION Spec
INVARIANTS Commutative Associative Monotone Neutral Absorbing InRange Between Dual
CHECK_DEADLOCK FALSE
