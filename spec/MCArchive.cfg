SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS WholeOnly Truncated RoundTrip Typed
