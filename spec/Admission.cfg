SPECIFICATION Spec
INVARIANTS Exact EmitDone
