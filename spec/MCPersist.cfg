SPECIFICATION Spec
CONSTANTS Anims = 2
 Ratios = 1
 Vias = {0, 1, 3}
 Cells = {1, 2, 3}
INVARIANTS Refines NoAlias
PROPERTY Isolated
CHECK_DEADLOCK FALSE
