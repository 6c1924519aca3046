SPECIFICATION PlanSpec
CONSTANTS Bone = 1 Dist = 1 Step = 16 Grid = 0
CHECK_DEADLOCK FALSE
