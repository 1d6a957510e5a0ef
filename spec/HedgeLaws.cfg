SPECIFICATION Spec
INVARIANTS InRange Monotone Ends Involution Concentrates Dilates Undone Halves
CHECK_DEADLOCK FALSE
