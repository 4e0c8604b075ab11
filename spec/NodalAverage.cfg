SPECIFICATION Spec
CONSTANT Fams = {"tri3", "tri6", "quad4"}
INVARIANTS Heard LinearExact Sound EmitDone
