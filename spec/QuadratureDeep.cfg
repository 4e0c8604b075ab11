SPECIFICATION Spec
CONSTANTS MaxNd = 4
 Full = TRUE
INVARIANTS Sane EmitAll
