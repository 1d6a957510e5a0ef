SPECIFICATION Spec
INVARIANT Promises
VIEW View
CHECK_DEADLOCK FALSE
