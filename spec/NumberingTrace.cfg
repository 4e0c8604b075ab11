SPECIFICATION Spec
INVARIANT Verdict
