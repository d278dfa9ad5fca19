------------------------------ MODULE ExpTrace ------------------------------
(* Conformance of the expectation operator and of the randomness test with *)
(* their meaning: the expectation is the mean over a finite probability    *)
(* space, a quantity is random iff a random field occurs in it outside     *)
(* every expectation.                                                      *)
EXTENDS World, SequencesExt
IsRandFun(k) == k \in DOMAIN Case.funs /\ Case.funs[k][1] = "rand"

VARIABLES l, bad, nchk, nundef
vars == <<l, bad, nchk, nundef>>

\* shape of a distributed expectation: its argument is neither a sum nor a
\* derivative nor an integral, and has no deterministic factor
Distributed(nodes, rnd, i) ==
  LET a == nodes[i][2]
      c == nodes[a]
  IN  /\ rnd[a]
      /\ c[1] \notin {"add", "D", "I", "ID"}
      /\ c[1] = "IL" => \E q \in 2..Len(c[2]) : rnd[c[2][q]]      \* random limits: the integral stays inside
      /\ c[1] = "mul" => \A q \in 1..Len(c[2]) : rnd[c[2][q]]
\* expectation: ev.pairs = <<argument, result, result of applying it again>>
ExpectBad(ev) ==
  LET vs == TLCEval(EvalAll(ev.nodes, World))
      rnd == FreeRandom(ev.nodes, IsRandFun)
      want(p) == Mean(vs[p[1]])
      defd(p) == Len(vs[p[1]]) > 0
      res == { p[2] : p \in Range(ev.pairs) }
      es == { i \in Reach(ev.nodes, res) : ev.nodes[i][1] = "E" }
  IN  { <<"value", ev.text>> : p \in { q \in Range(ev.pairs) : defd(q) /\ ~SameAt(want(q), vs[q[2]]) } }
      \cup { <<"not-idempotent", ev.text>> : p \in { q \in Range(ev.pairs) : defd(q) /\ ~SameAt(vs[q[2]], vs[q[3]]) } }
      \cup { <<"still-random", ev.text>> : p \in { q \in Range(ev.pairs) : rnd[q[2]] } }
      \cup { <<"changed-deterministic", ev.text>> : p \in { q \in Range(ev.pairs) : ~rnd[q[1]] /\ defd(q) /\ ~SameAt(vs[q[1]], vs[q[2]]) } }
      \cup { <<"not-distributed", ev.text>> : i \in { j \in es : ~Distributed(ev.nodes, rnd, j) } }
      \cup (IF ev.again THEN {} ELSE { <<"not-repeatable", ev.text>> })
      \cup (IF ev.shape THEN {} ELSE { <<"shape", ev.text>> })
RandomBad(ev) ==
  LET rnd == FreeRandom(ev.nodes, IsRandFun)
      want == \E i \in Range(ev.roots) : rnd[i]
  IN  IF ev.answer = want THEN {} ELSE { <<"israndom", ev.text>> }
HasBad(ev) ==
  LET sy == SymsIn(ev.nodes, FunVars, VarName)[ev.root]
      want == Range(ev.ask) \cap (sy \ {"omega"}) # {}
  IN  IF ev.answer = want THEN {} ELSE { <<"has", ev.text>> }
Bad(ev) == CASE ev.kind = "expect" -> ExpectBad(ev)
             [] ev.kind = "random" -> RandomBad(ev)
             [] ev.kind = "has" -> HasBad(ev)
             [] OTHER -> { <<"unknown-event", ev.kind>> }
UndefCount(ev) == IF ev.kind # "expect" THEN 0
                  ELSE LET vs == EvalAll(ev.nodes, World) IN
                       IF \E p \in Range(ev.pairs) : Len(vs[p[1]]) = 0 THEN 1 ELSE 0

Init == l = 1 /\ bad = {} /\ nchk = 0 /\ nundef = 0
Step == /\ l <= Len(Case.events)
        /\ bad' = bad \cup Bad(Case.events[l])
        /\ nchk' = nchk + 1
        /\ nundef' = nundef + UndefCount(Case.events[l])
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, nundef |-> nundef, bad |-> SetToSeq(bad)])
=============================================================================
