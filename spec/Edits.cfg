SPECIFICATION Spec
CONSTANT Depth = 8
INVARIANTS Faithful EmitDone
