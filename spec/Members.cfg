SPECIFICATION Spec
CONSTANT Reach = 3
INVARIANTS Symmetric NoForce Mass FormsAgree EmitForms EmitDone
