-------------------------------- MODULE ShiftGen --------------------------------
(* Generator of shifted functions: coordinates with awkward names and       *)
(* displacements that are multiples or fractions of the grid step.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MAXN
VARIABLES names, disp
Names == {"t", "x", "x1", "dx", "d", "depth", "xi", "e", "y"}
Disps == { <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<-3, 2>>, <<4, 1>> }
Ambiguous(s) == \E i, j \in 1..Len(s) : i # j /\ s[i] = "d" \o s[j]
Init == names = <<>> /\ disp = <<>>
Next == /\ Len(names) < MAXN
        /\ \E n \in Names, d \in Disps :
             /\ \A i \in 1..Len(names) : names[i] # n
             /\ names' = Append(names, n) /\ disp' = Append(disp, d)
        /\ (~Ambiguous(names') => PrintT("HIST " \o ToJson(<<names', disp'>>)))
Spec == Init /\ [][Next]_<<names, disp>>
=============================================================================
