------------------------------ MODULE ClassTrace ------------------------------
(* The roles of the symbols of a system of evolution equations, computed    *)
(* from the structure of the equations alone, against what the code         *)
(* reports and prints.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Names, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
\* nodes: <<"fun", name, argument nodes, id>> <<"sym", name, kind>> <<"D", child, variables>> <<"op", children>>
Children(nd) == CASE nd[1] = "fun" -> Range(nd[3]) [] nd[1] = "D" -> {nd[2]} [] nd[1] = "op" -> Range(nd[2]) [] OTHER -> {}
Below(nodes, rs) == FoldLeft(LAMBDA acc, n : LET i == Len(nodes) + 1 - n IN
                        IF i \in acc THEN acc \cup Children(nodes[i]) ELSE acc, rs, [n \in 1..Len(nodes) |-> n])
Syms(nodes, r, kind) == { nodes[i][2] : i \in { j \in Below(nodes, {r}) : nodes[j][1] = "sym" /\ nodes[j][3] = kind } }
AllSyms(nodes, r) == Syms(nodes, r, "plain") \cup Syms(nodes, r, "trainable")
Funs(nodes, rs) == { i \in Below(nodes, rs) : nodes[i][1] = "fun" }
Id(nodes, i) == nodes[i][4]
Dedup(s) == FoldLeft(LAMBDA acc, x : IF \E q \in 1..Len(acc) : acc[q] = x THEN acc ELSE Append(acc, x), <<>>, s)
Count(s, x) == Cardinality({ q \in 1..Len(s) : s[q] = x })
Orders(vs) == { <<x, Count(vs, x)>> : x \in Range(vs) }

Roles(ev) ==
  LET n == ev.nodes
      E == 1..Len(ev.eqs)                          \* <<lhs, rhs, rhs with derivatives evaluated>>
      lhs(e) == n[ev.eqs[e][1]]                     \* derivative in time of a function
      prog == Dedup([e \in E |-> lhs(e)[2]])
      progId == [q \in 1..Len(prog) |-> Id(n, prog[q])]
      funs == Funs(n, { ev.eqs[e][1] : e \in E } \cup { ev.eqs[e][2] : e \in E })
      other == { i \in funs : Id(n, i) \notin Range(progId) }
      const == { Id(n, i) : i \in { j \in other : "t" \notin AllSyms(n, j) } }
      args(q) == [k \in 1..Len(n[prog[q]][3]) |-> n[n[prog[q]][3][k]][2]]
      longest == FoldLeft(LAMBDA best, q : IF Len(args(q)) > Len(args(best)) THEN q ELSE best, 1, [q \in 1..Len(prog) |-> q])
      coords == Dedup(FoldLeft(LAMBDA acc, q : acc \o args(q), args(longest), [q \in 1..Len(prog) |-> q]))
      ders == UNION { { i \in Below(n, {ev.eqs[e][3]}) : n[i][1] = "D" /\ "t" \notin Range(n[i][3]) } : e \in E }
  IN  TLCEval([prog |-> progId, const |-> const, exog |-> { Id(n, i) : i \in other } \ const,
       funs |-> { Id(n, i) : i \in funs }, coords |-> coords,
       constants |-> UNION { Syms(n, ev.eqs[e][2], "plain") : e \in E } \ Range(coords),
       train |-> UNION { Syms(n, ev.eqs[e][2], "trainable") : e \in E },
       ders |-> { <<Id(n, n[i][2]), Orders(n[i][3])>> : i \in ders },
       max |-> FoldSet(LAMBDA i, m : IF Len(n[i][3]) > m THEN Len(n[i][3]) ELSE m, 0, ders)])
Chars(ev, s) == ev.chars[s]
CleanSet(ev, S) == { Valid(Chars(ev, s)) : s \in S }
\* a list that must hold exactly the elements of a set, once each
Once(out, S) == Range(out) = S /\ Len(out) = Cardinality(S)
Bad(ev) ==
  LET r == Roles(ev) o == ev.out IN
  If(o.prog = r.prog, "prognostic", ev)
  \cup If(Once(o.funs, r.funs), "functions", ev)
  \cup If(Once(o.const, r.const), "constant-functions", ev)
  \cup If(Once(o.exog, r.exog), "exogenous-functions", ev)
  \cup If(o.coords = r.coords, "coordinates", ev)
  \cup If(o.space = Tail(r.coords) /\ o.time = r.coords[1] /\ o.time = "t", "time-and-space", ev)
  \cup If(Once(o.constants, r.constants), "constants", ev)
  \cup If(Once(o.train, r.train), "trainable-scalars", ev)
  \cup If({ <<d[1], Orders(d[2])>> : d \in Range(o.ders) } = r.ders /\ Len(o.ders) = Cardinality(r.ders), "spatial-derivatives", ev)
  \cup If(o.max = r.max, "maximal-order", ev)
  \cup If(o.iter, "iteration", ev)
  \cup If(ev.rep.prog = r.prog, "summary-prognostic", ev)
  \cup If(Once(ev.rep.const, r.const), "summary-constant-functions", ev)
  \cup If(Once(ev.rep.exog, r.exog), "summary-exogenous", ev)
  \cup If(Range(ev.rep.constants) = CleanSet(ev, r.constants), "summary-constants", ev)
  \cup If(Range(ev.rep.train) = CleanSet(ev, r.train), "summary-trainable", ev)
  \cup If(ev.rep.name, "summary-name", ev)
Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ l <= Len(Case.events) /\ bad' = bad \cup TLCEval(Bad(Case.events[l])) /\ nchk' = nchk + 17 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
