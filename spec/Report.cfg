SPECIFICATION Spec
INVARIANTS Partition Complete Loaded Equations EmitDone
