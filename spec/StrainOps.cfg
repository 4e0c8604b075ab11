SPECIFICATION Spec
CONSTANT Fams = {"tri3", "tri6", "quad4", "quad8", "quad9", "tet4", "hex8"}
INVARIANTS Admissible LinearExact PolyExact EmitDone
