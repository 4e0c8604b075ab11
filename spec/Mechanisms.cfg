SPECIFICATION Spec
CONSTANT Primes = {32749, 32719}
INVARIANTS Echelon Maxwell Bodies LooseMoves EmitDone
