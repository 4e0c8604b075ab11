SPECIFICATION Spec
CONSTANT Depth = 20
INVARIANTS Faithful EmitDone
