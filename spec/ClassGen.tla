------------------------------- MODULE ClassGen -------------------------------
(* Generator of systems whose symbols play every role: fields of all or a   *)
(* part of the coordinates, functions of time, of space, of both, of scaled *)
(* or shifted coordinates, scalars (plain and trainable, also as exponents  *)
(* and inside functions), derivatives of fields, of given functions and of  *)
(* products, time derivatives on the right.  Parameters are drawn at random *)
(* (simulation).                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Randomization
CONSTANTS MAXF, MAXT
VARIABLES stage, nd, fields, eqs
vars == <<stage, nd, fields, eqs>>
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
Axes == <<"x", "y", "z">>
Names == <<"u", "v", "w", "q">>
ArgSets(n) == IF n = 1 THEN <<"x">> ELSE IF n = 2 THEN <<"x,y", "x,y", "x,y", "x", "y">> ELSE <<"x,y,z", "x,y,z", "x,y,z", "x,z", "y", "x,y">>
Atoms == <<"{u}", "{u}", "{u}**2", "{v}", "D({u},{a})", "D({u},{a})", "D({u},{a},{a})", "D({u},{a},{b})", "D({v},{a},{a},{b})", "D({u},{a},{a},{a},{a})",
           "D({v},t)", "D({u},t,{a})", "k", "c", "m1", "A", "B", "K", "D(K,{a})", "F", "D(F,{a})", "D(F,t)", "G", "D(G,t)", "sin(k*{a})", "exp(-c*{u})", "{u}**n",
           "{u}**A", "S1", "S2", "D(K*{u},{a})", "D({u}**2,{a})", "D(F*D({u},{a}),{b})", "{a}*{u}", "t*G", "sqrt(k)", "Z", "2", "R(1,3)", "(k+{u})**(-1)", "I2*c", "P", "D(P,{a})", "U0", "U0", "D(U0,{a})", "U1" >>
Schemes == << <<>>,
  << <<"u", "\\phi">>, <<"v", "V_{\\phi}">>, <<"k", "\\nu^{0,1}">>, <<"c", "\\nu">>, <<"K", "\\kappa_{11}">>, <<"A", "a^{1}">> >>,
  << <<"u", "du">>, <<"v", "dx">>, <<"k", "dt">>, <<"c", "dx">>, <<"K", "x">>, <<"G", "t">> >>,
  << <<"x", "\\theta">>, <<"y", "\\lambda">>, <<"z", "r">>, <<"k", "lambda">> >> >>
Init == stage = "shape" /\ nd = 0 /\ fields = <<>> /\ eqs = <<>>
Shape == /\ stage = "shape" /\ nd' = R(1..3) /\ stage' = "fields" /\ UNCHANGED <<fields, eqs>>
\* the coordinates of the generator: time, then a choice of axes
Field == /\ stage = "fields" /\ Len(fields) < MAXF
         /\ fields' = Append(fields, Names[Len(fields) + 1] \o "(t," \o Pick(ArgSets(nd)) \o ")")
         /\ stage' = Pick(<<"fields", "eq", "eq">>) /\ UNCHANGED <<nd, eqs>>
Force == stage = "fields" /\ Len(fields) = MAXF /\ stage' = "eq" /\ UNCHANGED <<nd, fields, eqs>>
Term == LET u == Pick(SubSeq(Names, 1, Len(fields))) IN
        [atoms |-> [q \in 1..R(1..3) |-> Pick(Atoms)], u |-> u, v |-> Pick(SubSeq(Names, 1, Len(fields))), a |-> Axes[R(1..nd)], b |-> Axes[R(1..nd)]]
EqStep == /\ stage = "eq" /\ Len(eqs) < Len(fields)
          /\ eqs' = Append(eqs, [q \in 1..R(1..MAXT) |-> Term]) /\ UNCHANGED <<stage, nd, fields>>
Emit == /\ stage = "eq" /\ Len(eqs) = Len(fields) /\ stage' = "done"
        /\ PrintT("CLS " \o ToJson([nd |-> nd, fields |-> fields, eqs |-> eqs, names |-> Pick(Schemes), order |-> R(0..5)]))
        /\ UNCHANGED <<nd, fields, eqs>>
Next == Shape \/ Field \/ Force \/ EqStep \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
