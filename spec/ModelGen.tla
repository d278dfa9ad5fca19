------------------------------- MODULE ModelGen -------------------------------
(* Generator of sessions on model objects (TLC simulation): two models     *)
(* with their own trend, a splitting model and a linear one receive a      *)
(* random interleaving of scheme selections, single steps, forecasts,      *)
(* predictions, ensembles, tangent-linear forecasts, propagators, windows. *)
EXTENDS ModelSem, Json
CONSTANTS MAXOPS, FLOATS, PAR, KINDS
VARIABLES salt, ops, done
vars == <<salt, ops, done>>

R(r, i) == Rnd(r * 37 + salt, i)
Pick(r, i, seq) == seq[(R(r, i) % Len(seq)) + 1]
Dim == (Rnd(salt, 1) % 3) + 1
LeanDim == 2
Val(r, i) == IF FLOATS THEN R(r, i) % 4 ELSE R(r, i)
Vec(r, i, n) == [k \in 1..n |-> Val(r, 20*i + k)]
Pows(r, i, n, lin) == LET j == (R(r, i) % n) + 1
                          q == R(r, i + 1) % 4
                          d == (R(r, i + 2) % n) + 1
                      IN  [k \in 1..n |-> IF lin THEN (IF k = j THEN 1 ELSE 0)
                                          ELSE (IF k = j /\ q # 0 THEN 1 ELSE 0) + (IF k = d /\ q > 1 THEN 1 ELSE 0)]
TrendOf(r, n, lin, auto) ==
  [i \in 1..n |-> [q \in 1..((R(r, 500 + i) % 2) + 1) |->
     <<(Val(r, 300 + 10*i + q) % (IF FLOATS THEN 2 ELSE 1000)) + 1,
       IF auto THEN 0 ELSE R(r, 350 + 10*i + q) % (IF FLOATS THEN 2 ELSE 3),
       Pows(r, 400 + 30*i + 5*q, n, lin)>>]]
\* one component without dynamics carries the identity of the member
Tagged(tr) == Append([i \in 1..Len(tr) |-> [q \in 1..Len(tr[i]) |-> <<tr[i][q][1], tr[i][q][2], Append(tr[i][q][3], 0)>>]],
                     <<>>)
Zero(n) == [i \in 1..n |-> <<>>]
Subs(n) == [i \in 1..((Rnd(salt, 3) % 3) + 1) |->
   IF R(900 + i, 1) % 3 = 0
   THEN [kind |-> "update", trend |-> Tagged(TrendOf(910 + i, n, FLOATS, FALSE)), trend2 |-> Tagged(TrendOf(920 + i, n, FLOATS, FALSE)),
         scheme |-> "exact"]
   ELSE [kind |-> "trend", trend |-> Tagged(TrendOf(930 + i, n, FLOATS, FALSE)), trend2 |-> Zero(n + 1),
         scheme |-> Pick(940 + i, 2, <<"euler", "rk2", "rk4">>)]]
Shape(n) == IF (n + 1) % 2 = 0 /\ Rnd(salt, 5) % 2 = 0 THEN <<2, (n + 1) \div 2>>
            ELSE IF Rnd(salt, 5) % 3 = 0 THEN <<1, n + 1>> ELSE <<n + 1>>
\* model 1 and 2: polynomial trends; 3: splitting; 4: linear model; 5: identity
Models == << [class |-> "Model", scheme |-> Pick(1, 1, <<"euler", "rk2", "rk4", "leapfrog">>), trend |-> Tagged(TrendOf(1, Dim, FLOATS, FALSE)),
              subs |-> <<>>, n |-> Dim + 1, shape |-> Shape(Dim)],
             [class |-> "Model", scheme |-> "default", trend |-> Tagged(TrendOf(2, 2, FLOATS, FALSE)), subs |-> <<>>, n |-> 3, shape |-> <<3>>],
             [class |-> "Model", scheme |-> "splitting", trend |-> <<>>, subs |-> Subs(Dim), n |-> Dim + 1, shape |-> Shape(Dim)],
             [class |-> "LinearModel", scheme |-> Pick(4, 1, <<"euler", "rk2", "rk4">>), trend |-> TrendOf(4, LeanDim, TRUE, FALSE), subs |-> <<>>, n |-> LeanDim, shape |-> <<LeanDim>>],
             [class |-> "IdentityModel", scheme |-> Pick(5, 1, <<"euler", "rk2", "rk4", "leapfrog">>), trend |-> Zero(2), subs |-> <<>>, n |-> 2, shape |-> <<2>>] >>
Win(r) == LET n == (R(r, 60) % (IF FLOATS THEN 3 ELSE 5)) + 1
              s == R(r, 61) % (IF FLOATS THEN 2 ELSE 5)
              dir == IF R(r, 67) % 4 = 0 THEN -1 ELSE 1     \* some windows run backward in time
          IN  FoldLeft(LAMBDA acc, k : Append(acc, acc[k] + dir * ((IF FLOATS THEN 0 ELSE R(r, 61 + k) % 3) + 1)), <<s>>, [k \in 1..(n-1) |-> k])
\* requested times: kind and list
Saved(r, w) ==
  LET q == R(r, 80) % 8
      sub == SelectSeq([k \in 1..Len(w) |-> w[k]], LAMBDA v : R(r, 90 + v) % 2 = 0)
  IN  CASE q = 0 -> [kind |-> "all", ts |-> <<>>]
        [] q = 1 -> [kind |-> "number", ts |-> <<w[(R(r, 81) % Len(w)) + 1]>>]
        [] q = 2 -> [kind |-> "list", ts |-> sub]
        [] q = 3 -> [kind |-> "list", ts |-> <<w[1]>> \o Reverse(sub) \o <<97>>]
        [] q = 4 -> [kind |-> "tuple", ts |-> Reverse(w)]
        [] q = 5 -> [kind |-> "array", ts |-> sub \o <<w[Len(w)]>>]
        [] q = 6 -> [kind |-> "npnumber", ts |-> <<w[Len(w)]>>]
        [] OTHER -> [kind |-> "list", ts |-> <<99>> \o sub \o sub]
WinForm(r) == Pick(r, 85, <<"array", "list", "tuple">>)
Names == <<"euler", "rk2", "rk4", "leapfrog", "bogus", "Euler", "rk3", "splitting", "">>
KindsFor(o) == CASE o = 5 -> {"fc", "pr", "step", "set", "win"}
                 [] o = 4 -> {"mat", "set", "fc", "tl", "ens", "rand"}
                 [] OTHER -> {"set", "fc", "pr", "step", "ens", "tl", "win", "fc2", "rand"}
OpOf(k, o, r) ==
  LET w == Win(r) IN
  [op |-> k, o |-> o, r |-> r, win |-> w, form |-> WinForm(r), saved |-> Saved(r, w),
   name |-> IF o = 3 THEN Pick(r, 70, <<"splitting", "nope", "SPLITTING">>)
            ELSE IF o = 4 THEN Pick(r, 70, <<"euler", "rk2", "rk4", "rk5">>)
            ELSE LET nm == Pick(r, 70, Names) IN IF nm = "splitting" THEN "rk4" ELSE nm,
   u |-> << Vec(r, 1, Models[o].n), Vec(r, 2, Models[o].n) >>,
   us |-> [i \in 1..(R(r, 71) % 5) |-> << Append(Vec(r, 10 + i, Models[o].n - 1), i), Append(Vec(r, 20 + i, Models[o].n - 1), i) >>],
   par |-> PAR /\ R(r, 72) % 3 = 0, pool |-> (R(r, 73) % 3) + 1, dt |-> (IF R(r, 75) % 4 = 0 THEN -1 ELSE 1) * ((IF FLOATS THEN 0 ELSE R(r, 74) % 3) + 1)]
Init == salt \in 1..3000 /\ ops = <<>> /\ done = FALSE
DoOp == /\ ~done /\ Len(ops) < MAXOPS
        /\ \E o \in 1..5 : \E k \in KindsFor(o) \cap KINDS : \E r \in 1..12 :
             ops' = Append(ops, <<k, o, r + 12 * Len(ops)>>)
        /\ UNCHANGED <<salt, done>>
Emit == /\ ~done /\ Len(ops) = MAXOPS /\ done' = TRUE /\ UNCHANGED <<salt, ops>>
        /\ PrintT("SESS " \o ToJson([models |-> Models, ops |-> [i \in 1..Len(ops) |-> OpOf(ops[i][1], ops[i][2], ops[i][3])], floats |-> FLOATS,
                                     unit |-> IF FLOATS THEN <<1, 1, 0>> ELSE Pick(1, 2, <<<<1, 1, 0>>, <<1, 2, 0>>, <<1, 10, 0>>, <<3, 1, 0>>, <<1, 10000, 500>>, <<1, 2000, 300>>, <<1, 10000, 0>>>>)]))
Next == DoOp \/ Emit \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
