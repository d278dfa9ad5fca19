------------------------------- MODULE CodeGen -------------------------------
(* Generator of expressions on the regular grid whose code is rendered: a   *)
(* sum of products of functions sampled at shifted points and times, grid   *)
(* steps, constants, elementary functions, derivatives to be replaced by    *)
(* finite differences; sometimes a point between the grid points.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXT, MAXS
VARIABLES nd, sch, terms, cur, n, done
vars == <<nd, sch, terms, cur, n, done>>
\* names of the coordinates, the functions (two of time and space, one of
\* space, one of time) and the constants
Names == << <<"x", "y", "z", "u", "v", "f", "b", "k", "c">>,
            <<"\\theta", "\\lambda", "r", "\\phi^{a}_{1}", "V_{u}", "\\nu", "g", "\\kappa", "c_{0}">>,
            <<"x", "x1", "x12", "x2", "u1", "dd", "t0", "index", "np1">>,
            <<"e", "d", "ed", "du", "ud", "p", "m", "P", "K">>,
            <<"lon", "lat", "z", "U^{x}_y", "U", "h_x", "s", "lambda", "k">> >>
Wraps == <<"", "", "", "", "**2", "**3", "**(-1)", "**(-2)", "sqrt", "sin", "exp", "cos", "neg">>
Coefs == <<"1", "-1", "2", "1/3", "-5/2", "k", "c", "k*c", "1/k", "h", "1/h", "1/h**2", "1/(2*h)", "dt", "1/dt", "k*h**2", "X">>
\* one value chosen at random
R(S) == {RandomElement(S)}
Init == nd \in 1..3 /\ sch \in 1..Len(Names) /\ terms = <<>> /\ cur = <<>> /\ done = FALSE /\ n \in 1..MAXT
\* a factor: function, time step, shift of each coordinate, wrapper
Factor == /\ ~done /\ Len(cur) < 2 /\ Len(terms) < n
          /\ \E f \in R(1..4), w \in R(1..Len(Wraps)), ts \in R(-2..2), sh \in R([1..nd -> -MAXS..MAXS]), q \in R(1..8) :
               cur' = Append(cur, [kind |-> "fun", f |-> f, w |-> Wraps[w], t |-> IF f = 3 \/ q > 4 THEN 0 ELSE ts,
                                   s |-> IF q % 3 = 0 THEN [a \in 1..nd |-> 0] ELSE [a \in 1..nd |-> sh[a]]])
          /\ UNCHANGED <<nd, sch, terms, n, done>>
\* a derivative, later replaced by finite differences
Diff == /\ ~done /\ Len(cur) < 2 /\ Len(terms) < n
        /\ \E f \in R(1..3), w \in R(1..Len(Wraps)), o \in R([1..nd -> 0..2]) :
             cur' = Append(cur, [kind |-> "diff", f |-> f, w |-> Wraps[w], t |-> 0, s |-> [a \in 1..nd |-> o[a]]])
        /\ UNCHANGED <<nd, sch, terms, n, done>>
Close == /\ ~done /\ Len(cur) > 0 /\ Len(terms) < n
         /\ \E c \in R(1..Len(Coefs)), a \in R(1..nd) : terms' = Append(terms, [c |-> Coefs[c], a |-> a, fs |-> cur])
         /\ cur' = <<>> /\ UNCHANGED <<nd, sch, n, done>>
Emit == /\ ~done /\ Len(terms) = n /\ done' = TRUE /\ UNCHANGED <<nd, sch, terms, cur, n>>
        /\ \E o \in R(0..11), g \in R([1..nd -> {3, 4, 5}] \cup {[a \in 1..nd |-> 2]}), r \in R(0..3) :
             PrintT("CODE " \o ToJson([names |-> Names[sch], nd |-> nd, terms |-> terms, g |-> [a \in 1..nd |-> g[a]], off |-> IF o <= nd THEN o ELSE 9, rules |-> r]))
Next == Factor \/ Diff \/ Close \/ Emit \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
