------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* C25.  A session of library calls.  The library of the specification is  *)
(* a set of pure operations: the value of operation o on arguments a is    *)
(* <<o, a>>, whatever happened before.  The caller's world has             *)
(*   args     the argument objects, intact or not                          *)
(*   results  the results received, each with the value it must hold       *)
(*   held     for each operation, what the caller's own set of argument    *)
(*            objects for it holds at the moment (0: none made yet)        *)
(*   around   what surrounds the calls: the working directory and its      *)
(*            files, the model folders, random generators, numerical error *)
(*            handling, print and plot settings, the environment.  It      *)
(*            belongs to the caller, who may change it between calls: a    *)
(*            call neither changes it nor decides its result by it         *)
(* and the actions are: a call, a call that is refused, the caller writing *)
(* into a result it holds, and the caller overwriting its argument objects *)
(* in place and calling again with them: the value of a call is decided by *)
(* what its arguments hold and not by which objects they are.              *)
(* TLC generates random sessions; the                                      *)
(* harness performs them and compares, after every step, the new result    *)
(* with that of the same call in a fresh process and every argument and    *)
(* every other live result with what the specification says they hold.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANTS Depth, Window
VARIABLES args, results, held, around, hist
vars == <<args, results, held, around, hist>>
NOps == Scenarios[1].ops
NBad == Scenarios[1].bad
NArg(o) == Scenarios[1].variants[o]
Init == /\ args = [o \in 1..NOps |-> [a \in 1..NArg(o) |-> "intact"]]
        /\ results = <<>> /\ hist = <<>>
        /\ held = [o \in 1..NOps |-> 0]
        /\ around = "found"
Keep(seq) == IF Len(seq) > Window THEN Tail(seq) ELSE seq
Call == \E o \in {RandomElement(1..NOps)} : \E a \in {RandomElement(1..NArg(o))} :
    /\ results' = Keep(Append(results, [op |-> o, arg |-> a, val |-> <<o, a>>, mine |-> FALSE, held |-> FALSE]))
    /\ hist' = Append(hist, <<"call", o, a>>)
    /\ UNCHANGED <<args, held, around>>
(* the same call again, at once *)
Again == /\ results # <<>>
         /\ LET r == results[Len(results)] IN
            /\ results' = Keep(Append(results, [r EXCEPT !.val = <<r.op, r.arg>>, !.mine = FALSE, !.held = FALSE]))
            /\ hist' = Append(hist, <<"call", r.op, r.arg>>)
         /\ UNCHANGED <<args, held, around>>
Refused == \E b \in {RandomElement(1..NBad)} :
    /\ hist' = Append(hist, <<"refused", b, 0>>)
    /\ UNCHANGED <<args, results, held, around>>
(* the caller writes into the last result, or into an older one               *)
Write == /\ results # <<>>
         /\ \E i \in {RandomElement({Len(results), RandomElement(1..Len(results))})} :
            /\ results' = [results EXCEPT ![i].val = <<"written">>, ![i].mine = TRUE]
            /\ hist' = Append(hist, <<"write", Len(results) - i, 0>>)
         /\ UNCHANGED <<args, held, around>>
(* the held objects of an operation, filled with other values, are passed     *)
(* again: mostly those the caller passed last.  A result obtained from them   *)
(* before (a triangulation, say) may show the caller's own coordinates, so    *)
(* nothing is claimed about it any more                                       *)
Recent == {results[i].op : i \in {j \in 1..Len(results) : held[results[j].op] # 0}}
Reuse == \E o \in {RandomElement(IF Recent # {} /\ RandomElement(1..3) > 1
                                   THEN Recent ELSE 1..NOps)} :
         \E a \in {RandomElement(1..NArg(o))} :
    /\ held' = [held EXCEPT ![o] = a]
    /\ results' = Keep(Append(
          SelectSeq(results, LAMBDA r : ~(r.held /\ r.op = o)),
          [op |-> o, arg |-> a, val |-> <<o, held'[o]>>, mine |-> FALSE,
           held |-> TRUE]))
    /\ hist' = Append(hist, <<"reuse", o, a>>)
    /\ UNCHANGED <<args, around>>
(* the caller changes its own settings                                        *)
Settings == {"found", "quiet", "elsewhere", "seeded", "short", "styled"}
Arrange == \E s \in {RandomElement(Settings)} :
    /\ around' = s
    /\ hist' = Append(hist, <<s, 0, 0>>)
    /\ UNCHANGED <<args, results, held>>
Next == Len(hist) < Depth /\ (Call \/ Again \/ Refused \/ Write \/ Reuse \/ (RandomElement(1..3) = 1 /\ Arrange))
(* the same, operation after operation: every one four times in a row, with    *)
(* its own objects filled anew each time                                      *)
SweepStep == LET o == (Len(hist) \div 4) + 1
                 a == (Len(hist) % NArg(o)) + 1 IN
    /\ held' = [held EXCEPT ![o] = a]
    /\ results' = <<[op |-> o, arg |-> a, val |-> <<o, held'[o]>>, mine |-> FALSE,
                     held |-> TRUE]>>
    /\ hist' = Append(hist, <<"reuse", o, a>>)
    /\ UNCHANGED <<args, around>>
Sweep == Init /\ [][Len(hist) < 4 * NOps /\ SweepStep]_vars
EmitSweep == Len(hist) = 4 * NOps => EmitLine("sweep", [hist |-> hist])
Spec == Init /\ [][Next]_vars
(* what a result holds is decided by its own call or by the caller alone      *)
Pure == \A i \in 1..Len(results) : LET r == results[i] IN
           r.val = IF r.mine THEN <<"written">> ELSE <<r.op, r.arg>>
Untouched == \A o \in 1..NOps : \A a \in 1..NArg(o) : args[o][a] = "intact"
(* what surrounds the calls is what the caller last made of it                *)
LastSet == LET ch == SelectSeq(hist, LAMBDA h : h[1] \in Settings)
           IN  IF ch = <<>> THEN "found" ELSE ch[Len(ch)][1]
Surroundings == around = LastSet
EmitDone == Len(hist) = Depth => EmitLine("session", [hist |-> hist])
=============================================================================
