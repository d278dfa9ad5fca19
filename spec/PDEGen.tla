------------------------------- MODULE PDEGen -------------------------------
(* Generator of systems of evolution equations.                            *)
(* A behaviour builds one system, term by term and factor by factor; TLC   *)
(* in simulation mode draws behaviours and the last action prints the      *)
(* system as JSON.  Bounds: MAXF fields, MAXD space dimensions, MAXT terms *)
(* per equation, MAXQ factors per term, derivatives up to order MAXO.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MAXF, MAXD, MAXT, MAXQ, MAXO, ALLOWRATIO, RICH

VARIABLES stage, nf, nd, eqs, cur, left, cost
vars == <<stage, nf, nd, eqs, cur, left, cost>>

FieldName == <<"u", "v", "w">>
Axis  == <<"x", "y", "z">>
ArgsOf(n) == IF n = 1 THEN "(t,x)" ELSE IF n = 2 THEN "(t,x,y)" ELSE "(t,x,y,z)"
SpaceArgs(n) == IF n = 1 THEN "(x)" ELSE IF n = 2 THEN "(x,y)" ELSE "(x,y,z)"
CoordStr(n) == IF n = 1 THEN "t x" ELSE IF n = 2 THEN "t x y" ELSE "t x y z"

Coefs == {"", "-", "2*", "-3*", "R(1,2)*", "k*", "-k*", "f*", "h*", "-f*", "D(f,x)*", "k**2*", "G*"}
\* factor <<text, derivative cost>>
Factors ==
  LET fs == { FieldName[i] : i \in 1..nf } IN
       { <<u, 0>> : u \in fs }
  \cup { <<u \o "**2", 0>> : u \in fs }
  \cup { <<"D(" \o u \o "," \o Axis[a] \o ")", 1>> : u \in fs, a \in 1..nd }
  \cup (IF MAXO >= 2 THEN { <<"D(" \o u \o "," \o Axis[a] \o "," \o Axis[b] \o ")", 2>> :
            u \in fs, a \in 1..nd, b \in 1..nd } ELSE {})
  \cup (IF MAXO >= 3 /\ nd = 1 THEN { <<"D(" \o u \o ",x,x,x)", 3>> : u \in fs } ELSE {})
  \cup { <<"D(" \o u \o ",x)**2", 1>> : u \in fs }
  \cup { <<u \o "**3", 0>> : u \in fs }
  \cup { <<"x", 0>> }
  \cup (IF ALLOWRATIO THEN { <<"(1+" \o u \o ")**(-1)", 0>> : u \in fs } \cup { <<u \o "**(-2)", 0>> : u \in fs }
        ELSE {})
  \* RICH: derivatives of products and of fluxes, elementary functions of the
  \* fields and of the coordinates
  \cup (IF ~RICH THEN {} ELSE
            { <<"D(" \o u \o "**2," \o Axis[a] \o ")", 1>> : u \in fs, a \in 1..nd }
       \cup { <<"D(" \o u \o "*" \o v \o "," \o Axis[a] \o ")", 1>> : u \in fs, v \in fs, a \in 1..nd }
       \cup { <<"D(f*" \o u \o "," \o Axis[a] \o ")", 1>> : u \in fs, a \in 1..nd }
       \cup { <<"D(h*" \o u \o "," \o Axis[a] \o ")", 1>> : u \in fs, a \in 1..nd }
       \cup { <<"exp(" \o u \o ")", 0>> : u \in fs } \cup { <<"sqrt(" \o u \o ")", 0>> : u \in fs }
       \cup { <<"sin(" \o u \o ")", 0>> : u \in fs } \cup { <<"log(" \o u \o ")", 0>> : u \in fs }
       \cup { <<"sin(x)", 0>>, <<"cos(f)", 0>>, <<"exp(-t)", 0>>, <<"sqrt(k)", 0>>, <<"D(f,x)*D(h,x)", 0>>, <<"sqrt(f)", 0>> }
       \cup (IF MAXO >= 2
             THEN { <<"D(f*D(" \o u \o "," \o Axis[a] \o ")," \o Axis[b] \o ")", 2>> : u \in fs, a \in 1..nd, b \in 1..nd }
             \cup { <<"D(" \o u \o "*D(" \o v \o "," \o Axis[a] \o ")," \o Axis[b] \o ")", 2>> : u \in fs, v \in fs, a \in 1..nd, b \in 1..nd }
             \cup { <<"D(" \o u \o "*" \o v \o ",x,x)", 2>> : u \in fs, v \in fs }
             ELSE {}))

Init == stage = "shape" /\ nf = 0 /\ nd = 0 /\ eqs = <<>> /\ cur = "" /\ left = 0 /\ cost = 0
Shape == /\ stage = "shape"
         /\ \E a \in 1..MAXF, d \in 1..MAXD :
              /\ (d >= 2 => a <= 2) /\ nf' = a /\ nd' = d
         /\ stage' = "equation" /\ UNCHANGED <<eqs, cur, left, cost>>
StartEq == /\ stage = "equation" /\ Len(eqs) < nf
           /\ \E n \in 1..MAXT : left' = n
           /\ stage' = "term" /\ cur' = "0" /\ UNCHANGED <<nf, nd, eqs, cost>>
StartTerm == /\ stage = "term" /\ left > 0
             /\ \E c \in Coefs, fq \in Factors :
                  /\ cost + fq[2] <= MAXO
                  /\ cur' = cur \o "+(" \o (IF c = "-" THEN "-1*" ELSE c) \o fq[1] /\ cost' = cost + fq[2]
             /\ stage' = "factor" /\ UNCHANGED <<nf, nd, eqs, left>>
More == /\ stage = "factor" /\ MAXQ > 1
        /\ \E fq \in Factors : /\ cost + fq[2] <= MAXO
                               /\ cur' = cur \o "*" \o fq[1] /\ cost' = cost + fq[2]
        /\ stage' = "factor2" /\ UNCHANGED <<nf, nd, eqs, left>>
EndTerm == /\ stage \in {"factor", "factor2"}
           /\ cur' = cur \o ")" /\ left' = left - 1 /\ stage' = "term" /\ cost' = 0
           /\ UNCHANGED <<nf, nd, eqs>>
EndEq == /\ stage = "term" /\ left = 0
         /\ eqs' = Append(eqs, cur) /\ cur' = "" /\ stage' = "equation"
         /\ UNCHANGED <<nf, nd, left, cost>>
Emit == /\ stage = "equation" /\ Len(eqs) = nf
        /\ PrintT("SYS " \o ToJson(
             [coords |-> CoordStr(nd),
              fields |-> [i \in 1..nf |-> FieldName[i] \o ArgsOf(nd)],
              given  |-> <<"f" \o SpaceArgs(nd), "h" \o ArgsOf(nd), "G(t)">>,
              consts |-> <<"k">>,
              rhs |-> eqs]))
        /\ stage' = "done" /\ UNCHANGED <<nf, nd, eqs, cur, left, cost>>
Done == stage = "done" /\ UNCHANGED vars
Next == Shape \/ StartEq \/ StartTerm \/ More \/ EndTerm \/ EndEq \/ Emit \/ Done
Spec == Init /\ [][Next]_vars
\* every emitted system is well formed
WellFormed == stage = "done" => Len(eqs) = nf /\ nf \in 1..MAXF /\ nd \in 1..MAXD
=============================================================================
