--------------------------------- MODULE Rings -------------------------------
(***************************************************************************)
(* C35.  Whole models of axisymmetric elements.                            *)
(* A model is a mesh of straight-sided 9-node quadrilaterals in the (r, z) *)
(* half plane with the displacement field                                  *)
(*      u_r = a r,   u_z = b z + c r + d,                                  *)
(* whose strains (radial a, hoop a, axial b, shear c) are the same         *)
(* everywhere.  Holding an element in that field takes at its node n       *)
(*      radial  s_rr A[n] + s_rz B[n]      (s_rr = s_hoop)                 *)
(*      axial   s_zz B[n] + s_rz C[n]                                      *)
(* with the integrals over the section (weight r)                          *)
(*      A = int (r N,r + N),   B = int r N,z,   C = int r N,r.             *)
(* The machine visits one element per step and puts <<element, A, B, C>>   *)
(* into the inbox of each of its nodes; unit 1/Den.                        *)
(***************************************************************************)
EXTENDS Integrals, Pipeline, Emit
VARIABLES tr, step, inbox, eqtab
vars == <<tr, step, inbox, eqtab>>
Tr == Scenarios[tr]

Den == 4 * 4 * 4 * 225
Quarter == <<1, 2, 3, 4>>
Pairs == [k \in 1..16 |-> <<((k - 1) \div 4) + 1, ((k - 1) % 4) + 1>>]
(* tables over (n, <<a, b>>): products of corner coordinates *)
MakeTables ==
    LET Q == Tab.basis["quad4"]
        Qd == Tab.diff["quad4"]
        N == Tab.basis["quad9"]
        Nd == Tab.diff["quad9"]
        Curl(f1, f2, b) == PSub(PMul(Qd[2][b], f1), PMul(Qd[1][b], f2))
        cut(p) == TLCEval(IntSquare(p))
    IN  [n \in 1..9 |-> TLCEval([k \in 1..16 |->
          LET a == Pairs[k][1]  b == Pairs[k][2]
              rN == PMul(Q[a], N[n])
              grad == PMul(Q[a], Curl(Nd[1][n], Nd[2][n], b))
          IN  TLCEval(<<cut(Curl(PDiff(rN, 1), PDiff(rN, 2), b)), cut(grad)>>)])]
ASSUME TLCSet(79, TLCEval(MakeTables))
Tables == TLCGet(79)

Node(e, a) == Tr.conn[e][a] + 1
R(e, a) == Tr.nodes[Node(e, a)][1]
Z(e, a) == Tr.nodes[Node(e, a)][2] - Tr.nodes[Node(e, 1)][2]
Dr(e, a) == R(e, a) - R(e, 1)
SumK(g(_)) == FoldLeft(LAMBDA s, k : s + g(k), 0, [k \in 1..16 |-> k])
Vector(e, n) ==
    LET t == Tables[n]
    IN  <<SumK(LAMBDA k : R(e, Pairs[k][1]) * Z(e, Pairs[k][2]) * t[k][1]),
          0 - SumK(LAMBDA k : R(e, Pairs[k][1]) * Dr(e, Pairs[k][2]) * t[k][2]),
          SumK(LAMBDA k : R(e, Pairs[k][1]) * Z(e, Pairs[k][2]) * t[k][2])>>

Init == /\ tr \in 1..Len(Scenarios)
        /\ step = 0
        /\ inbox = <<>>
        /\ eqtab = <<>>
Number == /\ step = 0
          /\ eqtab' = NumberTable(Tr.cons)
          /\ inbox' = [n \in 1..Len(Tr.nodes) |-> <<>>]
          /\ step' = 1
          /\ UNCHANGED tr
Visit == /\ step >= 1 /\ step <= Len(Tr.conn)
         /\ LET v == TLCEval([a \in 1..9 |-> TLCEval(Vector(step, a))])
                mine == {Node(step, a) : a \in 1..9}
                at(n) == CHOOSE a \in 1..9 : Node(step, a) = n
            IN  inbox' = [n \in 1..Len(Tr.nodes) |->
                   IF n \in mine THEN Append(inbox[n], <<step - 1>> \o v[at(n)])
                   ELSE inbox[n]]
         /\ step' = step + 1
         /\ UNCHANGED <<tr, eqtab>>
Next == Number \/ Visit
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.conn) + 1

(* -- properties of the design ---------------------------------------------- *)
Cur == step - 1
Vec(a, w) == LET b == inbox[Node(Cur, a)] IN b[Len(b)][w + 1]
SumN(g(_)) == FoldLeft(LAMBDA s, k : s + g(k), 0, [k \in 1..9 |-> k])
Cross(e, k) == R(e, k) * Z(e, (k % 4) + 1) - R(e, (k % 4) + 1) * Z(e, k)
Area2(e) == Cross(e, 1) + Cross(e, 2) + Cross(e, 3) + Cross(e, 4)
Moment6(e) == FoldLeft(LAMBDA s, k : s + Cross(e, k) * (R(e, k) + R(e, (k % 4) + 1)),
                       0, Quarter)
(* sides are straight, mid-side nodes and centres in the middle; no node on   *)
(* the wrong side of the axis                                                  *)
Straight == step = 1 => \A e \in 1..Len(Tr.conn) :
    /\ \A k \in 1..4 : \A v \in 1..2 :
          2 * Tr.nodes[Node(e, 4 + k)][v]
            = Tr.nodes[Node(e, k)][v] + Tr.nodes[Node(e, (k % 4) + 1)][v]
    /\ \A v \in 1..2 : 4 * Tr.nodes[Node(e, 9)][v]
            = FoldLeft(LAMBDA s, k : s + Tr.nodes[Node(e, k)][v], 0, Quarter)
    /\ Area2(e) > 0
    /\ \A k \in 1..4 : R(e, k) >= 0
(* the axial force on the element vanishes; a pressure feels the area; the    *)
(* centre node feels the divergence of nothing; the moments are those of r    *)
Resultants == step > 1 =>
    /\ SumN(LAMBDA a : Vec(a, 2)) = 0 /\ SumN(LAMBDA a : Vec(a, 3)) = 0
    /\ 2 * SumN(LAMBDA a : Vec(a, 1)) = Area2(Cur) * Den
    /\ Vec(9, 1) = 0
Work == step > 1 =>
    LET unit == Den \div 6 IN
    /\ SumN(LAMBDA a : (R(Cur, a) - R(Cur, 1)) * Vec(a, 1)) \div 2
          + (R(Cur, 1) * (Area2(Cur) * (Den \div 4))) = Moment6(Cur) * unit
    /\ SumN(LAMBDA a : Z(Cur, a) * Vec(a, 2)) = Moment6(Cur) * unit
    /\ SumN(LAMBDA a : Dr(Cur, a) * Vec(a, 3)) = Moment6(Cur) * unit
    /\ SumN(LAMBDA a : Dr(Cur, a) * Vec(a, 2)) = 0
    /\ SumN(LAMBDA a : Z(Cur, a) * Vec(a, 3)) = 0
(* the supports allow the field *)
Supported == step = 1 => \A n \in 1..Len(Tr.nodes) :
    LET r == Tr.nodes[n][1]  z == Tr.nodes[n][2]  f == Tr.field IN
    /\ Tr.cons[n][1] = -1 => f[1] * r = 0
    /\ Tr.cons[n][2] = -1 => f[2] * z + f[3] * r + f[4] = 0
Numbered == step = 1 => eqtab[2] = FreeCount(Tr.cons)
EmitDone == Done => Emit("ri" \o ToString(Tr.id),
    [inbox |-> inbox, den |-> Den,
     moment |-> [e \in 1..Len(Tr.conn) |-> Moment6(e)]])
=============================================================================
