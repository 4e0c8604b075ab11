------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* C38.  One element, turned, mirrored and listed anew.  State:            *)
(*   map, len   the linear map applied so far: len times an orthogonal map *)
(*   perm       position k of the listing holds node perm[k]               *)
(* Actions: list from another node, quarter turns, turns by the angle of a *)
(* 3-4-5 triangle, mirror images (which reverse the listing).  The state   *)
(* space is finite and explored completely.  TLC checks that a listing     *)
(* keeps neighbours and middle nodes and that an element in its new place  *)
(* is listed counter-clockwise (positively), so that it is admissible and  *)
(* its matrices must be those of the first one, turned with it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANT Reach, Reach3
VARIABLES kind, map, len, perm
vars == <<kind, map, len, perm>>

Plane == {"tri3", "tri6", "quad4", "quad8", "quad9"}
Member == {"spring", "truss", "beam2D", "beam2DU"}
Solid == {"tet4", "hex8"}
Kinds == Plane \cup Member \cup Solid \cup {"axi9"}
Dim(k) == IF k \in Solid THEN 3 ELSE 2
Axes(k) == 1..Dim(k)
Shape(k) == CASE k = "axi9" -> "quad9" [] k \in Member -> "bar" [] OTHER -> k
Size(k) == CASE Shape(k) = "bar" -> 2 [] k = "tri3" -> 3 [] k \in {"quad4", "tet4"} -> 4
             [] k = "tri6" -> 6 [] k \in {"quad8", "hex8"} -> 8 [] OTHER -> 9

(* -- listings ----------------------------------------------------------------- *)
Starts(k) == CASE Shape(k) = "bar" -> {<<2, 1>>}
               [] k = "tri3" -> {<<2, 3, 1>>}
               [] k = "tri6" -> {<<2, 3, 1, 5, 6, 4>>}
               [] k = "quad4" -> {<<2, 3, 4, 1>>}
               [] k = "quad8" -> {<<2, 3, 4, 1, 6, 7, 8, 5>>}
               [] Shape(k) = "quad9" -> {<<2, 3, 4, 1, 6, 7, 8, 5, 9>>}
               [] k = "tet4" -> {<<2, 3, 1, 4>>, <<2, 1, 4, 3>>}
               [] k = "hex8" -> {<<2, 3, 4, 1, 6, 7, 8, 5>>, <<4, 3, 7, 8, 1, 2, 6, 5>>}
Reversed(k) == CASE Shape(k) = "bar" -> <<1, 2>>
                 [] k = "tri3" -> <<1, 3, 2>>
                 [] k = "tri6" -> <<1, 3, 2, 6, 5, 4>>
                 [] k = "quad4" -> <<1, 4, 3, 2>>
                 [] k = "quad8" -> <<1, 4, 3, 2, 8, 7, 6, 5>>
                 [] Shape(k) = "quad9" -> <<1, 4, 3, 2, 8, 7, 6, 5, 9>>
                 [] k = "tet4" -> <<1, 3, 2, 4>>
                 [] k = "hex8" -> <<2, 1, 4, 3, 6, 5, 8, 7>>
Listed(g) == [k \in 1..Size(kind) |-> perm[g[k]]]

(* -- maps ------------------------------------------------------------------------- *)
Times(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a |->
    LET t(k) == a[i][k] * b[k][j]
    IN  IF Len(a) = 2 THEN t(1) + t(2) ELSE t(1) + t(2) + t(3)]]
Unit(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]]
(* the turn in the plane of axes a and b whose cosine and sine are c/l, s/l      *)
Turn(d, a, b, c, s, l) == [i \in 1..d |-> [j \in 1..d |->
    CASE i = a /\ j = a -> c [] i = b /\ j = b -> c
      [] i = a /\ j = b -> 0 - s [] i = b /\ j = a -> s
      [] i = j -> l [] OTHER -> 0]]
Glass(d, a) == [i \in 1..d |-> [j \in 1..d |-> IF i # j THEN 0 ELSE IF i = a THEN -1 ELSE 1]]
Planes(k) == {p \in Axes(k) \X Axes(k) : p[1] < p[2]}

Init == /\ kind \in Kinds
        /\ map = Unit(Dim(kind)) /\ len = 1
        /\ perm = [k \in 1..Size(kind) |-> k]
Restart == \E g \in Starts(kind) : perm' = Listed(g) /\ UNCHANGED <<kind, map, len>>
(* a solid is turned by the angle of the triangle last                            *)
Free == kind \in Solid => len = 1
Quarter == /\ kind # "axi9" /\ Free
           /\ \E p \in Planes(kind) : map' = Times(Turn(Dim(kind), p[1], p[2], 0, 1, 1), map)
           /\ UNCHANGED <<kind, len, perm>>
Spin == /\ kind # "axi9"
        /\ 5 * len <= IF kind \in Solid THEN Reach3 ELSE Reach
        /\ \E p \in Planes(kind) : map' = Times(Turn(Dim(kind), p[1], p[2], 3, 4, 5), map)
        /\ len' = 5 * len
        /\ UNCHANGED <<kind, perm>>
Mirror == /\ Free
          /\ \E a \in IF kind = "axi9" THEN {2} ELSE Axes(kind) :
                 map' = Times(Glass(Dim(kind), a), map)
          /\ perm' = Listed(Reversed(kind))
          /\ UNCHANGED <<kind, len>>
Next == Restart \/ Quarter \/ Spin \/ Mirror
Spec == Init /\ [][Next]_vars

(* -- what TLC checks ------------------------------------------------------------- *)
Similar == \A i, j \in Axes(kind) :
    LET t(k) == map[k][i] * map[k][j]
    IN  (IF Dim(kind) = 2 THEN t(1) + t(2) ELSE t(1) + t(2) + t(3))
          = IF i = j THEN len * len ELSE 0
Edges(k) == CASE Shape(k) = "bar" -> {{1, 2}}
              [] k \in {"tri3", "tri6"} -> {{1, 2}, {2, 3}, {3, 1}}
              [] k = "tet4" -> {{1, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 4}, {3, 4}}
              [] k = "hex8" -> {{1, 2}, {2, 3}, {3, 4}, {4, 1}, {5, 6}, {6, 7}, {7, 8}, {8, 5},
                                {1, 5}, {2, 6}, {3, 7}, {4, 8}}
              [] OTHER -> {{1, 2}, {2, 3}, {3, 4}, {4, 1}}
Middle(k) == CASE k = "tri6" -> [m \in 4..6 |-> <<{1, 2}, {2, 3}, {3, 1}>>[m - 3]]
               [] k \in {"quad8", "quad9", "axi9"} ->
                    [m \in 5..8 |-> <<{1, 2}, {2, 3}, {3, 4}, {4, 1}>>[m - 4]]
               [] OTHER -> [m \in {} |-> {}]
Neighbours == /\ \A e \in Edges(kind) : {perm[n] : n \in e} \in Edges(kind)
              /\ \A m \in DOMAIN Middle(kind) :
                     Middle(kind)[perm[m]] = {perm[n] : n \in Middle(kind)[m]}
              /\ Size(kind) = 9 => perm[9] = 9
(* signed size of the corner at the first node of the listing                      *)
Ref(k) == CASE k \in {"tri3", "tri6"} -> <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>
            [] k = "tet4" -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
            [] k = "hex8" -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>,
                               <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>>>
            [] OTHER -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
Det(m) == IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
          ELSE m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
             - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
             + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Corner(k) == CASE k \in {"tri3", "tri6"} -> <<2, 3>> [] k = "tet4" -> <<2, 3, 4>>
               [] k = "hex8" -> <<2, 4, 5>> [] OTHER -> <<2, 4>>
Image(v) == [i \in Axes(kind) |-> IF Dim(kind) = 2 THEN map[i][1] * v[1] + map[i][2] * v[2]
                                  ELSE map[i][1] * v[1] + map[i][2] * v[2] + map[i][3] * v[3]]
Side(k) == LET p == Image(Ref(kind)[perm[k]]) q == Image(Ref(kind)[perm[1]])
           IN  [i \in Axes(kind) |-> p[i] - q[i]]
Positive == kind \notin Member =>
    Det([c \in Axes(kind) |-> Side(Corner(kind)[c])]) > 0
EmitAll == EmitLine("symmetry", [kind |-> kind, map |-> map, len |-> len, perm |-> perm,
                                 det |-> IF Det(map) > 0 THEN 1 ELSE -1])
=============================================================================
