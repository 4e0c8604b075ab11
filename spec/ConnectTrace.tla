----------------------------- MODULE ConnectTrace ----------------------------
(* C02, code to specification: recorded calls that build an assembly         *)
(* operator.  cons: constraint table; eles: <<type, node...>> per element;   *)
(* rows: the leading entries of the recorded rows, as many as the element    *)
(* has degrees of freedom; builtin: the type is one of the library's own.    *)
EXTENDS Pipeline, Emit

VARIABLES t, e, eqn, bad
vars == <<t, e, eqn, bad>>
Tr == Scenarios[t]
If(cond, name) == IF cond THEN {name} ELSE {}

Init == /\ t \in 1..Len(Scenarios)
        /\ e = 0
        /\ eqn = <<>>
        /\ bad = {}

Number == /\ e = 0
          /\ eqn' = NumberTable(Tr.cons)[1]
          /\ bad' = bad
               \cup If(Tr.bc # eqn', "equation-table")
               \cup If(Tr.neq # NumberTable(Tr.cons)[2], "equation-count")
               \cup If(Len(Tr.rows) # Len(Tr.eles), "number-of-rows")
          /\ e' = 1
          /\ UNCHANGED t

ConnectElement ==
    /\ e >= 1 /\ e <= Len(Tr.eles)
    /\ LET ele == Tr.eles[e]
           want == ConnRow(Tail(ele), eqn)
       IN  bad' = bad
             \cup If(e > Len(Tr.rows), "missing-row")
             \cup IF e <= Len(Tr.rows) /\ Tr.rows[e] # want
                  THEN {"element-row"} ELSE {}
             \cup If(Tr.builtin /\ Len(want) # TypeNdof(ele[1]), "size-of-type")
    /\ e' = e + 1
    /\ UNCHANGED <<t, eqn>>

Next == Number \/ ConnectElement
Spec == Init /\ [][Next]_vars
Verdict == e = Len(Tr.eles) + 1 =>
             EmitLine("verdict", [id |-> Tr.id, bad |-> SetToSeq(bad)])
=============================================================================
