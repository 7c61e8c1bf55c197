SPECIFICATION Spec
INVARIANT Complete Sound
PROPERTY Traceless Steady
CHECK_DEADLOCK FALSE
