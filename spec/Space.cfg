SPECIFICATION Spec
CONSTANT Fams = {"quad8"}
INVARIANTS Supported Numbered LinearField Balanced OwnGradient EmitDone
