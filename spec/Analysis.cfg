SPECIFICATION Spec
CONSTANT Fams = {"tri3", "tri6", "quad4", "quad9"}
INVARIANTS Supported Numbered Sound LinearField Balanced EmitDone
