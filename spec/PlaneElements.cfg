SPECIFICATION Spec
CONSTANT Fams = {"tri3", "tri6", "quad4", "quad8", "quad9"}
INVARIANTS Symmetric Objective PatchConsistent SelfEquilibrated TotalMass EmitDone
