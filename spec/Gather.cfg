SPECIFICATION Spec
INVARIANT EmitDone
