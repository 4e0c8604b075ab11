SPECIFICATION Spec
CONSTANTS Depth = 160 Window = 6
INVARIANTS Pure Untouched Surroundings EmitDone
