SPECIFICATION Spec
INVARIANT Sound
PROPERTY Stable
CHECK_DEADLOCK FALSE
