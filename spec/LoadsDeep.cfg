SPECIFICATION Spec
CONSTANTS NN = 2
          ND = 2
          NR = 3
          Values = {1, 5}
INVARIANTS SumOfRows EmitDone
