SPECIFICATION Spec
CONSTANT Fams = {"tet4", "hex8"}
INVARIANTS Symmetric Objective PatchConsistent SelfEquilibrated SameVolume MassTotal EmitDone
