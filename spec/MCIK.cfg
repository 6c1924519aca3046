SPECIFICATION Spec
CONSTANTS Bone = 6 Dist = 14 Step = 16 Grid = 2
INVARIANTS BoneRight SoftRight AimRight
PROPERTY SoftSteps
CHECK_DEADLOCK FALSE
