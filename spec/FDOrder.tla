------------------------------- MODULE FDOrder -------------------------------
(* The centred stencils of Lattice.tla are what their name says: for every  *)
(* order n they are exact on polynomials up to degree n+1 (second-order     *)
(* consistency), symmetric, minimal (n+1 points) and on the grid.           *)
EXTENDS Lattice
CONSTANT MAXN
VARIABLE n
Init == n = 1
Next == n < MAXN /\ n' = n + 1
Spec == Init /\ [][Next]_n
Moment(m, j) == FoldLeft(LAMBDA s, w : (s + Mod(w[2]) * PowM(Mod(w[1]), j)) % P, 0, Stencil(m))
Scale(m) == IF m % 2 = 0 THEN 1 ELSE PowM(2, m)
Consistent ==
  /\ \A j \in 0..(n + 1) : Moment(n, j) = IF j = n THEN (Scale(n) * Mod(Fact(n))) % P ELSE 0
  /\ Moment(n, n + 2) # 0                                   \* and of no higher order
Minimal == Len(Stencil(n)) = n + 1 /\ \A i, j \in 1..(n + 1) : i # j => Stencil(n)[i][1] # Stencil(n)[j][1]
Symmetric == \A i \in 1..(n + 1) : Stencil(n)[i][1] = 0 - Stencil(n)[n + 2 - i][1]
                                   /\ Stencil(n)[i][2] = (IF n % 2 = 0 THEN 1 ELSE -1) * Stencil(n)[n + 2 - i][2]
\* applied on a periodic lattice: the difference of a constant vanishes and
\* differences in two variables commute
G2 == <<4, 5>>
Fld == [p \in 1..20 |-> Rnd(n, p)]
Commute == /\ CDiff(G2, <<7, 11>>, CDiff(G2, <<7, 11>>, Fld, 1, n), 2, 2) = CDiff(G2, <<7, 11>>, CDiff(G2, <<7, 11>>, Fld, 2, 2), 1, n)
           /\ CDiff(G2, <<7, 11>>, [p \in 1..20 |-> 3], 1, n) = [p \in 1..20 |-> 0]
           /\ ShiftAll(G2, ShiftAll(G2, Fld, <<n, 1 - n>>), <<0 - n, n - 1>>) = Fld
=============================================================================
