------------------------------ MODULE Mechanisms -----------------------------
(***************************************************************************)
(* C33.  Which motions does a model resist?                                *)
(* A motion that deforms no element is a mechanism.  Every element forbids *)
(* some motions, to first order:                                           *)
(*   a plane or solid element  any change of the distances of its nodes    *)
(*   a spring or truss member  a change of its length                      *)
(*   a beam                    an end rotation other than its chord's and, *)
(*                             with axial deformation, a change of length  *)
(* The machine visits one element per step and adds what it forbids to an  *)
(* echelon basis over the free components, with arithmetic modulo a prime  *)
(* (the two primes of the configuration are explored side by side; a rank  *)
(* modulo a prime never exceeds the rank, and two of them do not both fall *)
(* short).  What remains is the space of mechanisms: the exact null space  *)
(* that the stiffness of the model must have.                              *)
(***************************************************************************)
EXTENDS Pipeline, Emit
CONSTANT Primes
VARIABLES tr, prime, step, eqtab, basis, laid
vars == <<tr, prime, step, eqtab, basis, laid>>
Tr == Scenarios[tr]
Dim == Tr.dim
NN == Len(Tr.nodes)
Free == eqtab[2]
Col(n, c) == eqtab[1][n][c] + 1          \* 0 when restrained
Mod(a) == a % prime

(* -- arithmetic modulo the prime ------------------------------------------ *)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1
             ELSE LET h == TLCEval(Pow(a, k \div 2))
                      s == Mod(h * h)
                  IN  IF k % 2 = 1 THEN Mod(s * a) ELSE s
Recip(a) == Pow(a, prime - 2)
RECURSIVE Lead(_, _, _)
(* <<pivot, row>> after removing every pivot of the basis; 0: nothing left    *)
Lead(row, c, B) ==
    IF c > Len(row) THEN <<0, row>>
    ELSE IF row[c] = 0 THEN Lead(row, c + 1, B)
    ELSE IF B[c] = <<>> THEN <<c, row>>
    ELSE Lead(TLCEval([k \in 1..Len(row) |->
                 IF B[c][k] = 0 THEN row[k]
                 ELSE Mod(row[k] + (prime - row[c]) * B[c][k])]), c + 1, B)
Insert(B, row) ==
    LET got == Lead(row, 1, B)
    IN  IF got[1] = 0 THEN B
        ELSE LET inv == TLCEval(Recip(got[2][got[1]]))
             IN  [B EXCEPT ![got[1]] =
                     TLCEval([k \in 1..Len(row) |-> Mod(inv * got[2][k])])]
Rank(B) == Cardinality({c \in 1..Len(B) : B[c] # <<>>})

(* -- what an element forbids ------------------------------------------------ *)
(* a list of terms <<node, component, coefficient>> with vanishing sum        *)
Put(row, t) == LET c == Col(t[1], t[2])
               IN  IF c = 0 THEN row ELSE [row EXCEPT ![c] = Mod(@ + t[3])]
Row(terms) == FoldLeft(Put, [k \in 1..Free |-> 0], terms)
X(n, v) == Tr.nodes[n][v]
Distance(m, n) ==
    FlattenSeq([v \in 1..Dim |-> <<<<n, v, X(n, v) - X(m, v)>>,
                                   <<m, v, X(m, v) - X(n, v)>>>>])
Turn(m, n, who) ==
    LET dx == X(n, 1) - X(m, 1)  dy == X(n, 2) - X(m, 2)
    IN  <<<<n, 1, -dy>>, <<m, 1, dy>>, <<n, 2, dx>>, <<m, 2, -dx>>,
          <<who, 3, -(dx * dx + dy * dy)>>>>
Node(e, a) == Tr.conn[e][a] + 1
Rigid(e) ==
    LET A == Tr.anchors
        num == Len(Tr.conn[e])
        pairs == {p \in (1..num) \X (1..num) :
                     /\ p[1] # p[2]
                     /\ \E k \in 1..Len(A) : A[k] = p[1]
                     /\ (\E k \in 1..Len(A) : A[k] = p[2]) => p[1] < p[2]}
    IN  [k \in 1..Cardinality(pairs) |->
            LET p == SetToSeq(pairs)[k]
            IN  Distance(Node(e, p[1]), Node(e, p[2]))]
Forbids(e) ==
    LET m == Node(e, 1)  n == Node(e, 2)
    IN  CASE Tr.kinds[e] = "rigid" -> Rigid(e)
          [] Tr.kinds[e] = "bar" -> <<Distance(m, n)>>
          [] Tr.kinds[e] = "beamu" -> <<Turn(m, n, m), Turn(m, n, n)>>
          [] Tr.kinds[e] = "beam" -> <<Turn(m, n, m), Turn(m, n, n),
                                       Distance(m, n)>>

(* -- the machine --------------------------------------------------------------- *)
Init == /\ tr \in 1..Len(Scenarios)
        /\ prime \in Primes
        /\ step = 0
        /\ eqtab = <<<<>>, 0>>
        /\ basis = <<>>
        /\ laid = 0
Number == /\ step = 0
          /\ eqtab' = NumberTable(Tr.cons)
          /\ basis' = [c \in 1..eqtab'[2] |-> <<>>]
          /\ step' = 1
          /\ UNCHANGED <<tr, prime, laid>>
Visit == /\ step >= 1 /\ step <= Len(Tr.conn)
         /\ LET rows == TLCEval(Forbids(step))
            IN  /\ basis' = FoldLeft(LAMBDA B, t : TLCEval(Insert(B, Row(t))),
                                     basis, rows)
                /\ laid' = laid + Len(rows)
         /\ step' = step + 1
         /\ UNCHANGED <<tr, prime, eqtab>>
Next == Number \/ Visit
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.conn) + 1

(* -- properties of the design -------------------------------------------------- *)
Echelon == \A c \in 1..Len(basis) : basis[c] # <<>> =>
              /\ basis[c][c] = 1
              /\ \A k \in 1..(c - 1) : basis[c][k] = 0
(* Maxwell: no more resistance than the elements bring                          *)
Maxwell == Rank(basis) <= laid /\ Rank(basis) <= Free
(* a free motion of all nodes as one body is a mechanism, and so is any motion  *)
(* of a node that no element uses                                               *)
Motion(v) == FoldLeft(Put, [k \in 1..Free |-> 0], v)
Resisted(w) == \E c \in 1..Len(basis) :
    /\ basis[c] # <<>>
    /\ FoldLeft(LAMBDA s, k : Mod(s + Mod(basis[c][k] * w[k])), 0,
                [k \in 1..Free |-> k]) # 0
Allowed(v) == \A k \in 1..Len(v) : v[k][3] # 0 => Col(v[k][1], v[k][2]) # 0
Slide(c) == [n \in 1..NN |-> <<n, c, 1>>]
Spin(a, b, m) ==
    FlattenSeq([n \in 1..NN |->
        <<<<n, a, X(m, b) - X(n, b)>>, <<n, b, X(n, a) - X(m, a)>>>>
        \o (IF Tr.turns THEN <<<<n, 3, 1>>>> ELSE <<>>)])
Bodies == Done =>
    /\ \A c \in 1..Dim : Allowed(Slide(c)) => ~Resisted(Motion(Slide(c)))
    /\ \A m \in {1, NN} : \A a, b \in 1..Dim :
          a < b /\ Allowed(Spin(a, b, m)) => ~Resisted(Motion(Spin(a, b, m)))
Loose == {n \in 1..NN : \A e \in 1..Len(Tr.conn) : \A a \in 1..Len(Tr.conn[e]) :
             Node(e, a) # n}
LooseFree == FoldLeft(LAMBDA s, n : s + Cardinality({c \in 1..Len(Tr.cons[n]) :
                                             Tr.cons[n][c] = 0}),
                      0, SetToSeq(Loose))
LooseMoves == Done => Free - Rank(basis) >= LooseFree
EmitDone == Done =>
    Emit("me" \o ToString(Tr.id) \o "_" \o ToString(prime),
         [free |-> Free, rank |-> Rank(basis), loose |-> LooseFree])
=============================================================================
