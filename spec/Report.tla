------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* C32.  What an analysis says about its model.  The machine counts the    *)
(* model, numbers the free degrees of freedom, splits the mesh into bodies *)
(* (nodes linked by elements) and looks, body by body, for a rigid motion  *)
(* the supports allow.  If the loads do work on such a motion no           *)
(* displacement balances them: K m = 0 for the motion m, so                *)
(* m . (K u) = 0 # m . F for every u.  If no body has such a motion the    *)
(* stiffness of the model is definite and the solution balances the loads. *)
(***************************************************************************)
EXTENDS Pipeline, Emit
VARIABLES id, stage, count, body, motions, verdict
vars == <<id, stage, count, body, motions, verdict>>
S == Scenarios[id]
Nodes == 1..Len(S.nodes)
Init == /\ id \in 1..Len(Scenarios)
        /\ stage = "count" /\ count = <<>> /\ body = <<>> /\ motions = <<>> /\ verdict = ""
Count == /\ stage = "count"
         /\ count' = <<Len(S.nodes), Len(S.conn), NumberTable(S.cons)[2]>>
         /\ body' = [n \in Nodes |-> n]
         /\ stage' = "split"
         /\ UNCHANGED <<id, motions, verdict>>
(* every element pulls its nodes into the body of its lowest-numbered node     *)
Pull(b, row) == LET mem == {row[i] + 1 : i \in 1..Len(row)}
                    old == {b[n] : n \in mem}
                    low == Min(old)
                IN  [n \in Nodes |-> IF b[n] \in old THEN low ELSE b[n]]
Split == /\ stage = "split"
         /\ body' = FoldLeft(Pull, body, S.conn)
         /\ stage' = "move"
         /\ UNCHANGED <<id, count, motions, verdict>>
Bodies == {body[n] : n \in Nodes}
Members(b) == {n \in Nodes : body[n] = b}
X(n) == S.nodes[n][1]
Y(n) == S.nodes[n][2]
(* motion <<a, b, w>> of a body: n moves by (a - w y, b + w x)                 *)
Step(m, n) == <<m[1] - m[3] * Y(n), m[2] + m[3] * X(n)>>
Allowed(m, b) == \A n \in Members(b) : \A c \in 1..2 :
                    S.cons[n][c] = -1 => Step(m, n)[c] = 0
Fixed(b, c) == {n \in Members(b) : S.cons[n][c] = -1}
(* one translation per axis; the rotation about the point the supports leave,  *)
(* when they leave one.  With no support along an axis the centre is free      *)
(* along it and the translation takes care of the difference.                  *)
Turn(b) == <<IF Fixed(b, 1) = {} THEN 0 ELSE Y(Min(Fixed(b, 1))),
             IF Fixed(b, 2) = {} THEN 0 ELSE -X(Min(Fixed(b, 2))), 1>>
Basis(b) == {<<1, 0, 0>>, <<0, 1, 0>>} \cup
            (IF Cardinality(Members(b)) > 1 THEN {Turn(b)} ELSE {})
Load(n, c) == LET R == {i \in 1..Len(S.loads) : S.loads[i][1] + 1 = n}
              IN  FoldLeft(LAMBDA a, i : a + S.loads[i][c + 1], 0, SetToSeq(R))
Work(m, b) == FoldLeft(LAMBDA a, n : a + Step(m, n)[1] * Load(n, 1) + Step(m, n)[2] * Load(n, 2),
                       0, SetToSeq(Members(b)))
Move == /\ stage = "move"
        /\ motions' = SetToSeq({<<b, m>> \in Bodies \X UNION {Basis(c) : c \in Bodies} :
                                   m \in Basis(b) /\ Allowed(m, b)})
        /\ stage' = "judge"
        /\ UNCHANGED <<id, count, body, verdict>>
Judge == /\ stage = "judge"
         /\ verdict' = IF motions = <<>> THEN "balanced"
                       ELSE IF \E i \in 1..Len(motions) : Work(motions[i][2], motions[i][1]) # 0
                       THEN "unbalanced" ELSE "open"
         /\ stage' = "done"
         /\ UNCHANGED <<id, count, body, motions>>
Next == Count \/ Split \/ Move \/ Judge
Spec == Init /\ [][Next]_vars
Done == stage = "done"
-----------------------------------------------------------------------------
(* the bodies partition the nodes and no element straddles two                 *)
Partition == stage \in {"move", "judge", "done"} =>
    \A e \in 1..Len(S.conn) : \A i, j \in 1..Len(S.conn[e]) :
        body[S.conn[e][i] + 1] = body[S.conn[e][j] + 1]
(* the motions are found by a search over a box as well                        *)
Box == (-3..3) \X (-3..3) \X (-1..1)
Complete == Done /\ Len(S.nodes) <= 12 => \A b \in Bodies :
    (\E m \in Box \ {<<0, 0, 0>>} : /\ Allowed(m, b)
                                    /\ \E n \in Members(b) : Step(m, n) # <<0, 0>>)
       => \E i \in 1..Len(motions) : motions[i][1] = b
(* a motion the loads work on meets a free degree of freedom that is loaded    *)
Loaded == Done /\ verdict = "unbalanced" =>
    \E n \in Nodes : \E c \in 1..2 : S.cons[n][c] = 0 /\ Load(n, c) # 0
Equations == Done => count[3] = FreeCount(S.cons)
EmitDone == Done => EmitLine("verdict", [id |-> S.id, count |-> count, verdict |-> verdict,
                                         motions |-> motions])
=============================================================================
