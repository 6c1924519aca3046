SPECIFICATION Spec
CONSTANTS R = 1
INVARIANTS Multiplicative Associative Distributive ConjReverses ConjInverts DotIsReal Identity Lerp Columns
CHECK_DEADLOCK FALSE
