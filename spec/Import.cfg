SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Consecutive FlagsAreLast Shares EmitDone
