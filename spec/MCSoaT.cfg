SPECIFICATION Spec
CONSTANTS R = 2
INVARIANTS Multiplicative Associative Distributive ConjReverses ConjInverts DotIsReal Identity Lerp Columns
CHECK_DEADLOCK FALSE
