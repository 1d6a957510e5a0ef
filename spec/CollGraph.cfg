SPECIFICATION Spec
VIEW View
INVARIANT Laws
CHECK_DEADLOCK FALSE
