-------------------------------- MODULE IndexBFS --------------------------------
(* The enumeration by generations: start from the index with everything on  *)
(* the first coordinate, each generation moves one unit from the first      *)
(* coordinate to another.  TLC: every multi-index of the degree is in       *)
(* exactly one generation, all have the degree, none is missed at the end.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS N, D
VARIABLES d, gen, layer, seen
vars == <<d, gen, layer, seen>>
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
All(dd) == { s \in [1..N -> 0..dd] : SumSeq(s) = dd }
Init == d \in 0..D /\ gen = 0 /\ layer = { [i \in 1..N |-> IF i = 1 THEN d ELSE 0] } /\ seen = layer
Next == /\ gen < d /\ gen' = gen + 1
        /\ layer' = { [s EXCEPT ![1] = @ - 1, ![j] = @ + 1] : s \in layer, j \in 2..N }
        /\ seen' = seen \cup layer' /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Layer == layer = { s \in All(d) : s[1] = d - gen }
NeverTwice == Cardinality(seen) = Cardinality({ s \in All(d) : s[1] >= d - gen })
Complete == gen = d => seen = All(d)
=============================================================================
