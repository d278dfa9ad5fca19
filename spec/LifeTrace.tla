------------------------------ MODULE LifeTrace ------------------------------
(* A recorded session of parametric-dynamics objects against the lifecycle *)
(* specification: the state of an object is its equations and the closure   *)
(* accumulated so far; every delivered system must be the one that a fresh  *)
(* object with that state delivers.                                         *)
(*   Case.refs : [obj, clos, name, kind, nodes, eqs]  answers of fresh      *)
(*               objects, each from a process that did nothing else         *)
(*   Case.events : <<"new", o, clos>>, <<"set", o, items>>, <<"evict">>,    *)
(*               <<"get", o, name, answer>>                                 *)
(* A closure is a set of <<term, value identifier>>; supplying a term again *)
(* replaces its value.  An answer is [kind, eqs, nodes]: kind "eqs" (pairs  *)
(* <<lhs text, node>> in order) or "keys" (a set of texts).                 *)
EXTENDS World
VARIABLES l, clos, bad, nchk
vars == <<l, clos, bad, nchk>>
Ev == Case.events[l]
Init == l = 1 /\ clos = [o \in {} |-> {}] /\ bad = {} /\ nchk = 0
ClosOf(items) == { <<items[n][1], items[n][2]>> : n \in 1..Len(items) }
Update(c, new) == { p \in c : \A q \in new : q[1] # p[1] } \cup new

Keys(nodes) == { nodes[i][3] : i \in { j \in 1..Len(nodes) : nodes[j][1] = "E" } }
\* expectations are unknown quantities, known by what they are the mean of
Val(a) == LET ks == SetToSeq(Keys(a.nodes))
          IN  EvalAll(a.nodes, World)
RefSet(o, c, name) == { n \in 1..Len(Case.refs) : Case.refs[n].obj = o /\ Case.refs[n].name = name
                                                 /\ ClosOf(Case.refs[n].clos) = c }
Compare(o, name, a, r) ==
  IF a.kind # r.kind THEN { <<o, name, "kind", a.kind>> }
  ELSE IF a.kind = "keys" THEN
     { <<o, name, "missing", x>> : x \in Range(r.eqs) \ Range(a.eqs) }
     \cup { <<o, name, "unexpected", x>> : x \in Range(a.eqs) \ Range(r.eqs) }
  ELSE
  LET va == TLCEval(Val(a))
      vr == TLCEval(Val(r))
      n == Len(r.eqs)
  IN IF [q \in 1..Len(a.eqs) |-> a.eqs[q][1]] # [q \in 1..n |-> r.eqs[q][1]]
     THEN { <<o, name, "left-hand sides", [q \in 1..Len(a.eqs) |-> a.eqs[q][1]]>> }
     ELSE { <<o, name, "differs from a fresh object", r.eqs[q][1]>> :
              q \in { m \in 1..n : ~SameAt(va[a.eqs[m][2]], vr[r.eqs[m][2]]) } }
          \cup { <<o, name, "other unknowns", x>> : x \in (Keys(a.nodes) \ Keys(r.nodes)) \cup (Keys(r.nodes) \ Keys(a.nodes)) }
New == /\ Ev[1] = "new"
       /\ clos' = [o \in DOMAIN clos \cup {Ev[2]} |-> IF o = Ev[2] THEN ClosOf(Ev[3]) ELSE clos[o]]
       /\ UNCHANGED <<bad, nchk>>
Set == /\ Ev[1] = "set" /\ Ev[2] \in DOMAIN clos
       /\ clos' = [clos EXCEPT ![Ev[2]] = Update(@, ClosOf(Ev[3]))]
       /\ UNCHANGED <<bad, nchk>>
Evict == Ev[1] = "evict" /\ UNCHANGED <<clos, bad, nchk>>
Get == /\ Ev[1] = "get" /\ Ev[2] \in DOMAIN clos
       /\ LET rs == RefSet(Ev[2], clos[Ev[2]], Ev[3]) IN
          bad' = bad \cup (IF rs = {} THEN { <<"machinery", "no reference", Ev[2], Ev[3]>> }
                           ELSE Compare(Ev[2], Ev[3], Ev[4], Case.refs[CHOOSE n \in rs : TRUE]))
       /\ nchk' = nchk + Len(Ev[4].eqs) /\ UNCHANGED clos
Next == /\ l <= Len(Case.events) /\ l' = l + 1 /\ (New \/ Set \/ Evict \/ Get)
Spec == Init /\ [][Next]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [bad |-> SetToSeq(bad), nchk |-> nchk, steps |-> l - 1])
=============================================================================
