SPECIFICATION Spec
CONSTANT Depth = 8
INVARIANTS Faithful Near EmitDone
PROPERTY OnlyEchoes
