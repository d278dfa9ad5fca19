------------------------------- MODULE EnsLife -------------------------------
(* The parallel ensemble: M members handed out in order to W workers that  *)
(* finish at any relative speed; results are filed under the index of the  *)
(* member and delivered when all are there.  TLC explores every            *)
(* interleaving; the delivered list must be in member order for every      *)
(* order of completion.  Each completion order is printed and replayed     *)
(* into the real pool with delays that force it.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, W
VARIABLES next, busy, res, order, out
vars == <<next, busy, res, order, out>>
Init == next = 1 /\ busy = {} /\ res = [i \in 1..M |-> 0] /\ order = <<>> /\ out = <<>>
Take == next <= M /\ Cardinality(busy) < W /\ busy' = busy \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<res, order, out>>
Finish(i) == i \in busy /\ busy' = busy \ {i} /\ res' = [res EXCEPT ![i] = 10 + i] /\ order' = Append(order, i)
             /\ UNCHANGED <<next, out>>
Deliver == Len(order) = M /\ out = <<>> /\ out' = res
           /\ PrintT("HIST " \o ToJson([order |-> order, w |-> W, m |-> M]))
           /\ UNCHANGED <<next, busy, res, order>>
Next == Take \/ (\E i \in 1..M : Finish(i)) \/ Deliver
Spec == Init /\ [][Next]_vars
InOrder == out # <<>> => out = [i \in 1..M |-> 10 + i]
AtMostW == Cardinality(busy) <= W
=============================================================================
