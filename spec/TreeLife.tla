------------------------------ MODULE TreeLife ------------------------------
(* Histories of degree requests to a substitution tree.                    *)
(* The tree memoises its levels: "built" is the highest level computed so  *)
(* far.  Whatever the history, the answer to a request for degree d is the *)
(* set of levels 1..d: neither fewer (a level skipped because a higher one *)
(* exists) nor more (levels computed for an earlier, larger request).      *)
(* TLC checks this on the memoising design and prints every history of     *)
(* length MAXLEN, which is replayed into the implementation.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXDEG, MAXLEN
VARIABLES built, hist, answer
vars == <<built, hist, answer>>
Levels(n) == 1..n
Init == built = 0 /\ hist = <<>> /\ answer = {}
Request(d) == /\ Len(hist) < MAXLEN
              /\ built' = IF d > built THEN d ELSE built
              /\ answer' = { l \in Levels(built') : l <= d }
              /\ hist' = Append(hist, d)
              /\ (Len(hist') = MAXLEN => PrintT("HIST " \o ToJson(hist')))
Next == \E d \in 1..MAXDEG : Request(d)
Spec == Init /\ [][Next]_vars
AnswerExact == hist # <<>> => answer = Levels(hist[Len(hist)])
Monotone == [][built' >= built]_vars
=============================================================================
