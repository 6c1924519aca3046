SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS UpdateOk FullFresh SubtreeEnough
