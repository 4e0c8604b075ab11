SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS OwnFigure InOrder EmitDone
