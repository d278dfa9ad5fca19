---------------------------- MODULE BurgersLife ----------------------------
(* Sessions with Burgers reference models: construction with a resolution,  *)
(* changes of viscosity, trends and time steps, interleaved over three      *)
(* instances.  Drawn by simulation.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MAXLEN
NS == <<3, 4, 5, 8, 7, 16, 0, 2>>      \* 0: the default resolution
VARIABLES has, set, hist
vars == <<has, set, hist>>
R(S) == RandomElement(S)
Inst == 1..3
Init == has = {} /\ set = {} /\ hist = <<>>
New(i, n) == hist' = Append(hist, <<"new", i, n, 0>>) /\ has' = has \cup {i} /\ set' = set \ {i}
Visc(i, v) == i \in has /\ hist' = Append(hist, <<"set", i, v, 0>>) /\ set' = set \cup {i} /\ has' = has
Use(i, op, k, d) == i \in set /\ hist' = Append(hist, <<op, i, k, d>>) /\ UNCHANGED <<has, set>>
Act == \/ New(R(Inst), NS[R(1..Len(NS))])
       \/ Visc(R(Inst), R(0..46198))
       \/ Use(R(Inst), "trend", R(1..4), 0) \/ Use(R(Inst), "trend", R(1..4), 0)
       \/ Use(R(Inst), "step", R(1..4), R(1..3))
Next == \/ Len(hist) < MAXLEN /\ Act
        \/ Len(hist) = MAXLEN /\ PrintT("BUR " \o ToJson(hist)) /\ hist' = Append(hist, <<"end", 0, 0, 0>>) /\ UNCHANGED <<has, set>>
Spec == Init /\ [][Next]_vars
\* the dynamics is used only with a viscosity
UseReady == \A q \in 1..Len(hist) : hist[q][1] \in {"trend", "step"} =>
              \E r \in 1..(q - 1) : hist[r][1] = "set" /\ hist[r][2] = hist[q][2]
                                    /\ \A m \in (r + 1)..(q - 1) : ~(hist[m][1] = "new" /\ hist[m][2] = hist[q][2])
=============================================================================
