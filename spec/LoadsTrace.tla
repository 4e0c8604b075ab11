----------------------------- MODULE LoadsTrace ------------------------------
(* C04, code to specification.  Loads and right-hand sides in eighths.       *)
EXTENDS Pipeline, Emit
VARIABLES t, r, eqn, rhs
vars == <<t, r, eqn, rhs>>
Tr == Scenarios[t]
If(cond, name) == IF cond THEN {name} ELSE {}
Init == /\ t \in 1..Len(Scenarios)
        /\ r = 1
        /\ LET nums == NumberTable(Scenarios[t].cons)
           IN  eqn = nums[1] /\ rhs = [i \in 1..nums[2] |-> 0]
ApplyRow == /\ r <= Len(Tr.loads)
            /\ rhs' = AddLoad(rhs, Tr.loads[r], eqn)
            /\ r' = r + 1
            /\ UNCHANGED <<t, eqn>>
Spec == Init /\ [][ApplyRow]_vars
Touched == UNION {{eqn[Tr.loads[k][1] + 1][c] + 1 : c \in 1..Len(Tr.cons[1])} :
                     k \in 1..Len(Tr.loads)}
Bad == If(Len(Tr.rhs) # Len(rhs), "length")
       \cup If(Tr.rhs # rhs, "sum-of-rows")
       \cup IF Len(Tr.rhs) # Len(rhs) THEN {}
            ELSE LET touched == Touched
                 IN  If(\E i \in 1..Len(rhs) : Tr.rhs[i] # 0 /\ i \notin touched,
                        "unloaded-equation")
Verdict == r = Len(Tr.loads) + 1 =>
             EmitLine("verdict", [id |-> Tr.id, bad |-> SetToSeq(Bad)])
=============================================================================
