SPECIFICATION Spec
CONSTANTS MaxNd = 4
 Full = FALSE
INVARIANTS Sane EmitAll
