----------------------------- MODULE ForecastLife -----------------------------
(* The forecast loop as a state machine: a cursor walks the window, the    *)
(* state is the number of steps taken, the requested times are a set that  *)
(* may contain times outside the window.  Explored for every window length *)
(* and every request; the recorded trajectory must be exactly the states   *)
(* at the requested times of the window, in order, and a forecast cut at   *)
(* any window time and resumed from the last state must record the same.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MAXN
VARIABLES n, req, cut, cur, state, traj, phase
vars == <<n, req, cut, cur, state, traj, phase>>
\* window times are 1..n, the state at time k is k-1 (steps taken); requests in 0..MAXN+1
Init == /\ n \in 1..MAXN /\ req \in SUBSET (0..(MAXN+1)) /\ cut \in 1..n
        /\ cur = 1 /\ state = 0 /\ traj = <<>> /\ phase = "run"
Rec == IF cur \in req THEN Append(traj, <<cur, state>>) ELSE traj
\* at the cut the first forecast ends (it records its last time) and a new one
\* starts from that state: the same time is recorded once, by the second one
StepOn == /\ phase = "run" /\ cur < n
          /\ traj' = Rec /\ state' = state + 1 /\ cur' = cur + 1
          /\ UNCHANGED <<n, req, cut, phase>>
Resume == /\ phase = "run" /\ cur = cut
          /\ cut' = 0              \* the state handed over is the current one
          /\ UNCHANGED <<n, req, cur, state, traj, phase>>
End == /\ phase = "run" /\ cur = n /\ traj' = Rec /\ phase' = "done"
       /\ UNCHANGED <<n, req, cut, cur, state>>
Next == StepOn \/ Resume \/ End
Spec == Init /\ [][Next]_vars
Exact == phase = "done" =>
  traj = [i \in 1..Cardinality(req \cap (1..n)) |->
            LET k == CHOOSE q \in req \cap (1..n) : Cardinality({ r \in req \cap (1..n) : r <= q }) = i
            IN  <<k, k - 1>>]
Ordered == \A i, j \in 1..Len(traj) : i < j => traj[i][1] < traj[j][1]
=============================================================================
