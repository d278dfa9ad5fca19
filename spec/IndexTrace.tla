-------------------------------- MODULE IndexTrace --------------------------------
(* Conformance of the derivative multi-indices.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
N == Case.n
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* multi-indices of degree d by recursion on the coordinates (small sets only)
RECURSIVE AllOf(_, _)
AllOf(n, d) == IF n = 1 THEN { <<d>> } ELSE UNION { { <<a>> \o s : s \in AllOf(n-1, d-a) } : a \in 0..d }
If(c, what, t) == IF c THEN {} ELSE { <<what, t>> }
AllBad(ev) ==
  If({ ev.out[q] : q \in 1..Len(ev.out) } = AllOf(N, ev.d), "enumeration-incomplete-or-foreign", ev.text)
  \cup If(Cardinality({ ev.out[q] : q \in 1..Len(ev.out) }) = Len(ev.out), "enumerated-twice", ev.text)
  \cup If(ev.coords, "coordinates", ev.text)
\* the multi-index denoted by a notation
Index(ev) ==
  CASE ev.form = "tuple" -> ev.v
    [] ev.form \in {"sequence", "seqtuple"} -> [i \in 1..N |-> Cardinality({ q \in 1..Len(ev.v) : ev.v[q] = i })]
    [] OTHER -> [i \in 1..N |-> FoldLeft(LAMBDA a, cp : IF cp[1] = i THEN a + cp[2] ELSE a, 0, ev.v)]
AsSequence(a) == FoldLeft(LAMBDA acc, i : acc \o [q \in 1..a[i] |-> i], <<>>, [i \in 1..N |-> i])
NotBad(ev) ==
  IF ev.mal # "no" THEN If(ev.raised = "TypeError", "malformed-accepted", ev.text)
  ELSE IF ev.raised # "" THEN { <<"well-formed-rejected", ev.text>> }
  ELSE LET a == Index(ev) IN
       If(ev.tuple = a, "tuple", ev.text)
       \cup If(ev.couples = [i \in 1..N |-> <<i, a[i]>>], "couples", ev.text)
       \cup If(ev.sequence = AsSequence(a), "sequence", ev.text)
       \cup If(ev.again, "round-trip", ev.text)
       \cup If(ev.degree = SumSeq(a), "degree", ev.text)
       \cup If(ev.distinct, "distinct-indices-equal", ev.text)
Bad(ev) == IF ev.kind = "all" THEN AllBad(ev) ELSE NotBad(ev)
Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ l <= Len(Case.events) /\ bad' = bad \cup Bad(Case.events[l]) /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
