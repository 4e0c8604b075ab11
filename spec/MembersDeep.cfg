SPECIFICATION Spec
CONSTANT Reach = 12
INVARIANTS Symmetric NoForce Mass FormsAgree EmitForms EmitDone
