-------------------------------- MODULE NumGen --------------------------------
(* Generator of systems for numerical models (TLC simulation).  Symbols are *)
(* written with handles; `names` gives the text each handle stands for:     *)
(* plain names, names one of which occurs inside another, LaTeX names,      *)
(* keywords.  Every equation is a sum of terms, a term a coefficient and    *)
(* one or two factors; derivatives go up to order MAXO, mixed or not.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MAXF, MAXD, MAXT, MAXO
VARIABLES stage, nf, nd, sch, eqs, cur, left
vars == <<stage, nf, nd, sch, eqs, cur, left>>

Fields == <<"u", "v", "w">>
Axes   == <<"x", "y", "z">>
SpaceOf(n) == IF n = 1 THEN "x" ELSE IF n = 2 THEN "x,y" ELSE "x,y,z"
\* name schemes: handle -> text, for coordinates and for the rest
CoordNames == << << <<"x", "x">>, <<"y", "y">>, <<"z", "z">> >>,
                 << <<"x", "x">>, <<"y", "x1">>, <<"z", "xi">> >>,
                 << <<"x", "e">>, <<"y", "d">>, <<"z", "s">> >>,
                 << <<"x", "\\theta">>, <<"y", "\\lambda">>, <<"z", "r">> >>,
                 << <<"x", "lon">>, <<"y", "lat">>, <<"z", "depth">> >>,
                 << <<"x", "x">>, <<"y", "x2">>, <<"z", "x3">> >> >>
OtherNames == << << <<"u", "u">> >>,
                 << <<"u", "\\phi^{a}_{1}">>, <<"v", "{U_{x}}">>, <<"w", "\\lambda">>, <<"f", "\\kappa_{11}">>, <<"k", "\\nu^{0,1}">> >>,
                 << <<"u", "dx">>, <<"v", "u">>, <<"w", "du">>, <<"f", "nx">>, <<"h", "uu">>, <<"k", "dd">> >>,
                 << <<"u", "V_{u}">>, <<"v", "V_{v}">>, <<"w", "V_{uv}">>, <<"k", "lambda">>, <<"c", "\\kappa">> >>,
                 << <<"u", "z1">>, <<"v", "Z">>, <<"h", "A">>, <<"G", "b">>, <<"f", "q">>, <<"Q", "P">>, <<"k", "m">>, <<"c", "C">> >> >>
Coefs == <<"", "-1*", "2*", "R(1,3)*", "-R(5,2)*", "k*", "c*k*", "f*", "h*", "D(f,x)*", "D(h,{a})*", "k**2*", "G*", "sqrt(k)*", "c**(-1)*", "f*D(h,{a})*", "Q*G*">>
Factors(n, d) ==
  LET u == Fields[n] IN
  << u, u \o "**2", "D(" \o u \o ",{a})", "D(" \o u \o ",{a})", "D(" \o u \o ",{a},{b})", "D(" \o u \o ",{a},{b},{a})", "D(" \o u \o ",{b},{b},{b})",
     "D(" \o u \o ",{a},{a},{b},{b})", "D(" \o u \o "*f,{a})", "D(" \o u \o "**2,{a})", u \o "**(-1)", "sqrt(" \o u \o ")", "sin(" \o u \o ")",
     "exp(k*" \o u \o ")", "D(" \o u \o ",{a})**2", "D(f*D(" \o u \o ",{a}),{b})", "D(" \o u \o ",{a},{a},{a},{a},{b})" >>
Cost == <<0, 0, 1, 1, 2, 3, 3, 4, 1, 1, 0, 0, 0, 0, 1, 2, 5>>
\* {a} and {b} are replaced by coordinates by the reader: axes are chosen here
TermText(ci, n, fi, second, a, b) ==
  [c |-> Coefs[ci], f |-> Factors(n, 1)[fi], g |-> second, a |-> Axes[a], b |-> Axes[b]]

Init == stage = "shape" /\ nf = 0 /\ nd = 0 /\ sch = <<1, 1>> /\ eqs = <<>> /\ cur = <<>> /\ left = 0
Shape == /\ stage = "shape"
         /\ nf' \in 1..MAXF /\ nd' \in 1..MAXD
         /\ sch' \in (1..Len(CoordNames)) \X (1..Len(OtherNames))
         /\ stage' = "eq" /\ UNCHANGED <<eqs, cur, left>>
StartEq == /\ stage = "eq" /\ Len(eqs) < nf /\ left' \in 1..MAXT /\ cur' = <<>> /\ stage' = "term"
           /\ UNCHANGED <<nf, nd, sch, eqs>>
Term == /\ stage = "term" /\ left > 0
        /\ \E ci \in 1..Len(Coefs), n \in 1..nf, fi \in 1..Len(Cost), a \in 1..nd, b \in 1..nd, m \in 0..nf :
             /\ Cost[fi] <= MAXO /\ (nd > 1 => Cost[fi] <= MAXO)
             /\ cur' = Append(cur, <<ci, n, fi, m, a, b>>)
        /\ left' = left - 1 /\ UNCHANGED <<stage, nf, nd, sch, eqs>>
EndEq == /\ stage = "term" /\ left = 0 /\ eqs' = Append(eqs, cur) /\ stage' = "eq"
         /\ UNCHANGED <<nf, nd, sch, cur, left>>
Emit == /\ stage = "eq" /\ Len(eqs) = nf /\ stage' = "done"
        /\ PrintT("NUM " \o ToJson(
             [coords |-> IF nd = 1 THEN "t x" ELSE IF nd = 2 THEN "t x y" ELSE "t x y z",
              names |-> CoordNames[sch[1]] \o OtherNames[sch[2]],
              fields |-> [i \in 1..nf |-> Fields[i] \o "(t," \o SpaceOf(nd) \o ")"],
              given |-> <<"f(" \o SpaceOf(nd) \o ")", "h(t," \o SpaceOf(nd) \o ")", "G(t)", "Q(" \o SpaceOf(nd) \o ")">>,
              consts |-> <<"k", "c">>,
              terms |-> [e \in 1..nf |-> [q \in 1..Len(eqs[e]) |->
                 LET w == eqs[e][q] IN TermText(w[1], w[2], w[3], IF w[4] = 0 THEN "" ELSE Fields[w[4]], w[5], w[6])]]]))
        /\ UNCHANGED <<nf, nd, sch, eqs, cur, left>>
Next == Shape \/ StartEq \/ Term \/ EndEq \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
