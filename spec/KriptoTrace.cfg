SPECIFICATION Spec
VIEW Place
INVARIANT Done
CHECK_DEADLOCK FALSE
