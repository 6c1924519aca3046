SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS UpdateOk FullFresh SubtreeEnough
