SPECIFICATION Spec
CONSTANT GridQ = 4
INVARIANTS BasisIsNodal Unity Reproduces EmitAll
