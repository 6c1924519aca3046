SPECIFICATION Spec
CONSTANTS Anims = 2
 Ratios = 2
 Vias = {0, 1, 2, 3, 4, 5}
 Cells = {1, 2, 3}
INVARIANTS Refines NoAlias
PROPERTY Isolated
CHECK_DEADLOCK FALSE
