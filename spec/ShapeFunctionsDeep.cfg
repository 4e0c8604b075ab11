SPECIFICATION Spec
CONSTANT GridQ = 8
INVARIANTS BasisIsNodal Unity Reproduces EmitAll
