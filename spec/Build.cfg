SPECIFICATION BSpec
CONSTANT Fams = {"tri3", "tri6", "quad4", "quad9"}
INVARIANTS Builds Consecutive Reaches Supported Numbered Sound LinearField Balanced EmitBuilt
