SPECIFICATION Spec
INVARIANTS Placed Hermitian Anywhere Drift Energetic EmitDone
