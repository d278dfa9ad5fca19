--------------------------------- MODULE EqGen ---------------------------------
(* Generator of histories of equation arithmetic: a pool of equations, each *)
(* step applies one operation to members of the pool and adds the result.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXOPS
VARIABLES n, hist, muls, done
vars == <<n, hist, muls, done>>
Init == n = 2 /\ hist = <<>> /\ muls = 0 /\ done = FALSE
Op(o, i, j, a) == /\ hist' = Append(hist, [op |-> o, i |-> i, j |-> j, a |-> a]) /\ n' = n + 1 /\ UNCHANGED done
Next == \/ /\ ~done /\ Len(hist) < MAXOPS
           /\ \E i \in 1..n : \/ \E j \in 1..n, o \in {"add", "sub"} : Op(o, i, j, 0) /\ UNCHANGED muls
                              \/ \E o \in {"neg", "doit", "expand", "neg"} : Op(o, i, i, 0) /\ UNCHANGED muls
                              \/ \E a \in 1..8, o \in {"scale", "iscale"} : muls < 3 /\ Op(o, i, i, a) /\ muls' = muls + 1
                              \/ \E j \in 1..n : muls < 2 /\ Op("imul", i, j, 0) /\ muls' = muls + 2
                              \/ \E a \in 1..8 : Op("subs", i, i, a) /\ UNCHANGED muls
                              \/ \E a \in 1..8 : Op("isolate", i, i, a) /\ UNCHANGED muls
        \/ /\ ~done /\ Len(hist) = MAXOPS /\ done' = TRUE /\ PrintT("EQH " \o ToJson([ops |-> hist]))
           /\ UNCHANGED <<n, hist, muls>>
        \/ done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
