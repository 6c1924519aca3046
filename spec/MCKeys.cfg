SPECIFICATION Spec
INVARIANTS SameValue Monotone Mirrored ShiftDecoder RoundTrip InRange Slots
CHECK_DEADLOCK FALSE
