------------------------------ MODULE CodeTrace ------------------------------
(* Conformance of rendered code: what the code computes on a grid is the    *)
(* value of the expression there.  A function at the time step s is another *)
(* field, written name@s; a point between the grid points has no code.      *)
EXTENDS Lattice, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
OffGrid(ev) == \E i \in 1..Len(ev.nodes) : ev.nodes[i][1] = "off"
Env(ev) == [g |-> ev.g, h |-> [k \in 1..Len(ev.g) |-> Rat(ev.h[k][1], ev.h[k][2])], mode |-> "fd", syms |-> ev.syms, funs |-> ev.funs]
CodeBad(ev) ==
  IF OffGrid(ev) THEN If(ev.raised, "off-grid-accepted", ev)
  ELSE IF ev.raised THEN { <<"no-code", ev.text, ev.err>> }
  ELSE LET v == TLCEval(EvalLat(ev.nodes, Env(ev)))[ev.root] IN
       (IF Len(v) = 0 THEN {} ELSE
        If(~ev.undef /\ Expand(ev.out, NPts(ev.g)) = Expand(v, NPts(ev.g)), "code-value", ev))
       \cup If(ev.same, "not-repeatable", ev)
Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ l <= Len(Case.events) /\ bad' = bad \cup TLCEval(CodeBad(Case.events[l])) /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
