------------------------------- MODULE GenLife -------------------------------
(* Sessions with two instances of a generated model: construction with any  *)
(* part of the parameters, later assignments, trends, steps, shifted        *)
(* indices, new requests of the code, wrong dimensions.  The generator only *)
(* proposes: a session is a list of operations with small numbers that the  *)
(* reader maps on the system at hand.  Kinds are picked by TLC, parameters  *)
(* at random (simulation).                                                  *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT LEN
VARIABLES hist, on, done
vars == <<hist, on, done>>
R(S) == RandomElement(S)
Pick == { i \in {1, 2} : on[i] }
Init == hist = <<>> /\ on = [i \in {1, 2} |-> FALSE] /\ done = FALSE
Do(op) == hist' = Append(hist, op)
New == \E i \in {R({1, 2})} : Do(<<"new", i, R(0..15), R(0..4), R(0..3), R(0..3), R(1..3)>>) /\ on' = [on EXCEPT ![i] = TRUE]
\* everything given
Full == \E i \in {R({1, 2})} : Do(<<"new", i, 15, R(0..3), R(0..3), R(0..3), R(1..3)>>) /\ on' = [on EXCEPT ![i] = TRUE]
Keep == UNCHANGED on
Set == Pick # {} /\ Do(<<"set", R(Pick), R(0..4), R(1..3)>>) /\ Keep
Trend == Pick # {} /\ Do(<<"trend", R(Pick), R(0..3), R(1..3)>>) /\ Keep
Stp == Pick # {} /\ Do(<<"step", R(Pick), R(0..3), R(1..3), R(1..3)>>) /\ Keep
Index == Pick # {} /\ Do(<<"index", R(Pick), R(0..2), R(-9..9)>>) /\ Keep
Held == Pick # {} /\ Do(<<"held", R(Pick)>>) /\ Keep
Code == Do(<<"code", R({"again", "module", "fresh", "pde"})>>) /\ Keep
Reject == Do(<<"reject", R(0..4), R(0..4)>>) /\ Keep
Next == \/ Len(hist) < LEN /\ UNCHANGED done /\
             \E k \in 1..12 : CASE k = 1 -> New [] k \in {2, 3} -> Full [] k = 4 -> Set [] k \in {5, 6, 7} -> Trend [] k = 8 -> Stp
                                [] k = 9 -> Index [] k = 10 -> Held [] k = 11 -> Code [] OTHER -> Reject
        \/ Len(hist) = LEN /\ ~done /\ PrintT("GLF " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<hist, on>>
Spec == Init /\ [][Next]_vars
=============================================================================
