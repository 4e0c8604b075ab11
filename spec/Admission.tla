------------------------------ MODULE Admission ------------------------------
(***************************************************************************)
(* C24.  Which models are refused.  From a sound mesh (integer             *)
(* coordinates) the machine spoils one element, any of them and in any of  *)
(* the listed ways, and then inspects the elements one by one in table     *)
(* order: it refuses at the first unsound element and otherwise accepts.   *)
(*   unknown   the type is none of the supported ones                      *)
(*   flip      listed clockwise (inside out in three dimensions)           *)
(*   collapse  its nodes moved onto a line (a plane in 3D)                 *)
(*   double    its connectivity repeats nodes so that it has no area       *)
(*   nonode    it names a node beyond the table                            *)
(*   nomat     it names a material beyond the table                        *)
(*   none      nothing: the mesh is sound                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Emit
VARIABLES tr, kind, which, conn, extra, types, mats, at, verdict
vars == <<tr, kind, which, conn, extra, types, mats, at, verdict>>
NMat == 1
Tr == Scenarios[tr]
ofam == Tr.fam
NE == Len(Tr.conn)
Known == IF Tr.user THEN {Tr.type} ELSE 1..8
Pos(n) == IF n < Len(Tr.nodes) THEN Tr.nodes[n + 1] ELSE extra[n - Len(Tr.nodes) + 1]
Del(p, q) == [v \in 1..Len(p) |-> q[v] - p[v]]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Triple(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1])
                 + a[3] * (b[1] * c[2] - b[2] * c[1])
(* signed measure of an element: length, area or volume, up to a factor      *)
Measure(c) ==
    LET d(i) == Del(Pos(c[1]), Pos(c[i])) IN
    CASE ofam = "bar" -> d(2)[1] * d(2)[1] + d(2)[2] * d(2)[2]
      [] ofam \in {"tri3", "tri6"} -> Cross(d(2), d(3))
      [] ofam \in {"quad4", "quad8", "quad9"} -> Cross(d(2), d(3)) + Cross(d(3), d(4))
      [] ofam = "tet4" -> Triple(d(2), d(3), d(4))
      [] ofam = "hex8" -> Triple(d(2), d(4), d(5))
Flip == CASE ofam = "tri3" -> <<1, 3, 2>> [] ofam = "tri6" -> <<1, 3, 2, 6, 5, 4>>
          [] ofam = "quad4" -> <<1, 4, 3, 2>> [] ofam = "quad8" -> <<1, 4, 3, 2, 8, 7, 6, 5>>
          [] ofam = "quad9" -> <<1, 4, 3, 2, 8, 7, 6, 5, 9>>
          [] ofam = "tet4" -> <<1, 3, 2, 4>> [] ofam = "hex8" -> <<5, 6, 7, 8, 1, 2, 3, 4>>
Double == CASE ofam = "bar" -> <<1, 1>> [] ofam = "tri3" -> <<1, 2, 2>>
            [] ofam = "tri6" -> <<1, 2, 2, 4, 2, 4>>
            [] ofam = "quad4" -> <<1, 2, 2, 1>> [] ofam = "quad8" -> <<1, 2, 2, 1, 5, 2, 5, 1>>
            [] ofam = "quad9" -> <<1, 2, 2, 1, 5, 2, 5, 1, 5>>
            [] ofam = "tet4" -> <<1, 2, 3, 3>> [] ofam = "hex8" -> <<1, 2, 3, 4, 1, 2, 3, 4>>
(* onto the line (t, 2 t) (the x axis for slender elements), or the plane     *)
(* z = x + y; a bar onto its first node                                       *)
Squash(p, o) == CASE ofam = "bar" -> o
                  [] Len(p) = 2 /\ Tr.slim -> <<p[1], 0>>
                  [] Len(p) = 2 -> <<p[1] + 3 * p[2], 2 * (p[1] + 3 * p[2])>>
                  [] OTHER -> <<p[1], p[2], p[1] + p[2]>>
Kinds == ({"none", "unknown", "flip", "collapse", "double", "nonode", "nomat"} \ (IF ofam = "bar" THEN {"flip"} ELSE {}))
           \ (IF Tr.user THEN {"unknown"} ELSE {})

Init == /\ tr \in 1..Len(Scenarios)
        /\ kind = "" /\ which = 0 /\ conn = <<>> /\ extra = <<>> /\ types = <<>> /\ mats = <<>>
        /\ at = 0 /\ verdict = ""
Spoil == /\ at = 0
         /\ \E k \in Kinds : \E e \in (IF k = "none" THEN {0} ELSE 1..NE) :
            /\ kind' = k /\ which' = e
            /\ mats' = [i \in 1..NE |-> IF i = e /\ k = "nomat" THEN NMat + ((e + tr) % 3) ELSE 0]
            /\ types' = [i \in 1..NE |-> IF i = e /\ k = "unknown"
                           THEN <<0, 9, -1, 42>>[((e + tr) % 4) + 1] ELSE Tr.type]
            /\ LET c == IF e = 0 THEN <<>> ELSE Tr.conn[e]
                   nn == Len(c)
               IN  /\ extra' = IF k = "collapse" THEN [a \in 1..nn |->
                                    Squash(Tr.nodes[c[a] + 1], Tr.nodes[c[1] + 1])] ELSE <<>>
                   /\ conn' = CASE k = "flip" -> [Tr.conn EXCEPT ![e] = [a \in 1..nn |-> c[Flip[a]]]]
                                [] k = "double" -> [Tr.conn EXCEPT ![e] = [a \in 1..nn |-> c[Double[a]]]]
                                [] k = "collapse" -> [Tr.conn EXCEPT ![e] =
                                       [a \in 1..nn |-> Len(Tr.nodes) + a - 1]]
                                [] k = "nonode" -> [Tr.conn EXCEPT ![e] =
                                       [a \in 1..nn |-> IF a = ((e + tr) % nn) + 1
                                          THEN Len(Tr.nodes) + (tr % 3) ELSE c[a]]]
                                [] OTHER -> Tr.conn
         /\ at' = 1
         /\ UNCHANGED <<tr, verdict>>
Inspect == /\ at >= 1 /\ at <= NE /\ verdict = ""
           /\ verdict' = IF \/ types[at] \notin Known
                            \/ mats[at] >= NMat
                            \/ \E a \in 1..Len(conn[at]) :
                                  conn[at][a] >= Len(Tr.nodes) + Len(extra)
                            \/ Measure(conn[at]) <= 0 THEN "refuse"
                         ELSE IF at = NE THEN "accept" ELSE ""
           /\ at' = IF verdict' = "" THEN at + 1 ELSE at
           /\ UNCHANGED <<tr, kind, which, conn, extra, types, mats>>
Next == Spoil \/ Inspect
Spec == Init /\ [][Next]_vars
Done == verdict # ""
(* refused exactly when spoiled, at the spoiled element                       *)
Exact == Done => /\ (verdict = "accept") = (kind = "none")
                 /\ verdict = "refuse" => at = which
EmitDone == Done => EmitLine("case", [id |-> Tr.id, kind |-> kind, which |-> which,
      row |-> IF which = 0 THEN <<>> ELSE conn[which],
      mat |-> IF which = 0 THEN 0 ELSE mats[which],
      type |-> IF which = 0 THEN Tr.type ELSE types[which],
      extra |-> extra, verdict |-> verdict])
=============================================================================
