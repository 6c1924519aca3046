SPECIFICATION Spec
CONSTANTS Bone = 16 Dist = 40 Step = 1 Grid = 3
INVARIANTS BoneRight SoftRight AimRight
PROPERTY SoftSteps
CHECK_DEADLOCK FALSE
