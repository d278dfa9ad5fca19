------------------------------- MODULE AlgTrace -------------------------------
(* Conformance of the equation arithmetic, the coordinate-system calculus, *)
(* the comparison of expressions and the naming and displacement helpers.  *)
(*                                                                         *)
(* The state is a pool of equations known by the values of their two       *)
(* sides.  Every operation appends the equation that the specification     *)
(* computes from the values in the pool; what the code returned must have  *)
(* these values, and the operands must keep theirs.                        *)
EXTENDS World, SequencesExt, Names
VARIABLES l, bad, nchk, pool
vars == <<l, bad, nchk, pool>>

If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
Same(a, b) == Len(a) = 0 \/ Len(b) = 0 \/ SameAt(a, b)     \* undefined values decide nothing
Vals(ev) == TLCEval(EvalAll(ev.nodes, World))
Pair(vs, p) == <<vs[p[1]], vs[p[2]]>>
Both(Op(_,_), a, b) == <<Op(a[1], b[1]), Op(a[2], b[2])>>
\* world in which the substituted symbols and functions take new values
SubWorld(ev, vs) ==
  LET s == ev.sub IN
  [World EXCEPT
     !.syms = [k \in DOMAIN World.syms |-> IF \E q \in 1..Len(s) : s[q][1] = k THEN vs[s[CHOOSE q \in 1..Len(s) : s[q][1] = k][2]] ELSE World.syms[k]],
     !.funs = [k \in DOMAIN World.funs |-> IF \E q \in 1..Len(s) : s[q][1] = k THEN vs[s[CHOOSE q \in 1..Len(s) : s[q][1] = k][2]] ELSE World.funs[k]]]
Want(ev, vs) ==
  LET a == pool[ev.i] b == pool[ev.j] IN
  CASE ev.op = "new"  -> Pair(vs, ev.given)
    [] ev.op = "add"  -> Both(VAdd, a, b)
    [] ev.op = "sub"  -> Both(VSub, a, b)
    [] ev.op = "neg"  -> <<VNeg(a[1]), VNeg(a[2])>>
    [] ev.op = "scale" -> <<VMul(vs[ev.alpha], a[1]), VMul(vs[ev.alpha], a[2])>>
    [] ev.op = "iscale" -> <<VMul(vs[ev.alpha], a[1]), VMul(vs[ev.alpha], a[2])>>
    [] ev.op = "imul" -> Both(VMul, a, b)
    [] ev.op \in {"doit", "expand"} -> a
    [] ev.op = "subs" -> LET w == TLCEval(EvalAll(ev.nodes, SubWorld(ev, vs))) IN Pair(w, ev.operand)
    [] ev.op = "isolate" -> <<vs[ev.term], vs[ev.out[2]]>>
\* isolating: the term is alone on the left, absent on the right, and giving
\* the term the value of the right side makes the original equation true
IsolateBad(ev, vs) ==
  LET s == ev.out[2]
      v1 == TLCEval(FoldLeft(LAMBDA acc, nd : Append(acc, IF Len(acc) + 1 = ev.term THEN vs[s]
                                                   ELSE TLCEval(EvalNode(nd, acc, World))), <<>>, ev.nodes))
      reach == FoldLeft(LAMBDA acc, n : LET i == Len(ev.nodes) + 1 - n IN
                        IF i \in acc THEN acc \cup Range(Children(ev.nodes[i])) ELSE acc,
                        {s}, [n \in 1..Len(ev.nodes) |-> n])
  IN  If(ev.out[1] = ev.term, "term-not-alone", ev) \cup If(ev.term \notin reach, "term-on-both-sides", ev)
      \cup If(Same(v1[ev.operand[1]], v1[ev.operand[2]]), "not-equivalent", ev)
EqBad(ev) ==
  LET vs == Vals(ev) w == TLCEval(Want(ev, vs)) IN
  (IF ev.op = "isolate" THEN IsolateBad(ev, vs)
   ELSE If(Same(vs[ev.out[1]], w[1]) /\ Same(vs[ev.out[2]], w[2]), "wrong-sides", ev))
  \cup If(ev.op = "new" \/ (Same(vs[ev.operand[1]], pool[ev.i][1]) /\ Same(vs[ev.operand[2]], pool[ev.i][2])), "operand-changed", ev)
  \cup If(ev.kind, "not-an-equation", ev)
  \cup If(ev.op # "expand" \/ \A q \in {1, 2} : LET n == ev.nodes[ev.out[q]] IN n[1] # "mul" \/ \A k \in 1..Len(n[2]) : ev.nodes[n[2][k]][1] # "add",
          "not-expanded", ev)

\* an equation whose sides become one and the same is a truth value, not an error
TruthBad(ev) == LET vs == Vals(ev) IN
  If(ev.got \in {"true", "false"}, "no-truth-value", ev)
  \cup If(ev.got # "true" \/ Same(vs[ev.out[1]], vs[ev.out[2]]), "declared-true", ev)

\* ---- coordinate systems
\* variables on which each node depends: an integrated variable is bound
DepsIn(nodes) ==
  FoldLeft(LAMBDA acc, nd :
    LET ch == Children(nd)
        sub == UNION { acc[ch[q]] : q \in 1..Len(ch) }
    IN Append(acc, CASE nd[1] = "fun" -> FunVars(nd[2])
                     [] nd[1] = "sym" -> {nd[2]}
                     [] nd[1] = "I" -> sub \cup { VarName(nd[3][q]) : q \in 1..Len(nd[3]) }
                     [] nd[1] = "ID" -> sub \ { VarName(nd[3]) }
                     [] nd[1] = "IL" -> (acc[ch[1]] \ { VarName(nd[3][q]) : q \in 1..Len(nd[3]) })
                                        \cup UNION { acc[ch[q]] : q \in 2..Len(ch) }
                     [] OTHER -> sub),
    <<>>, nodes)
\* every function in the field depends on all the coordinates (by itself or
\* through its arguments)
Compat(ev, roots) ==
  LET need == Range(ev.coords)
      sy == DepsIn(ev.nodes)
  IN  \A i \in Reach(ev.nodes, roots) : ev.nodes[i][1] \in {"fun", "app", "exp", "sin", "cos", "log"} => need \subseteq sy[i]
VarOf(c) == Case.syms[c][2]
GradBad(ev) ==
  IF ~Compat(ev, {ev.field}) THEN If(ev.raised, "incompatible-accepted", ev)
  ELSE IF ev.raised THEN { <<"compatible-rejected", ev.text>> }
  ELSE LET vs == Vals(ev) IN
       If(Len(ev.out) = Len(ev.coords), "gradient-size", ev)
       \cup If(\A q \in 1..Len(ev.coords) : q > Len(ev.out) \/ Same(vs[ev.out[q]], VDer(VarOf(ev.coords[q]), 1, vs[ev.field])), "gradient", ev)
DivBad(ev) ==
  IF ~Compat(ev, Range(ev.vector)) THEN If(ev.raised, "incompatible-accepted", ev)
  ELSE IF ev.raised THEN { <<"compatible-rejected", ev.text>> }
  ELSE LET vs == Vals(ev)
           want == FoldLeft(LAMBDA acc, q : VAdd(acc, VDer(VarOf(ev.coords[q]), 1, vs[ev.vector[q]])), VZero,
                            [q \in 1..Len(ev.coords) |-> q])
       IN  If(Same(vs[ev.out[1]], want), "divergence", ev)
\* ---- comparison: common + specific_i = expression_i, all terms of expanded
\* sums, common ones reported once, specific ones different from each other
Sum(vs, ids) == FoldLeft(LAMBDA acc, i : VAdd(acc, vs[i]), VZero, ids)
Expanded(nodes, i) == LET n == nodes[i] IN
  /\ n[1] # "add"
  /\ n[1] = "mul" => \A k \in 1..Len(n[2]) : LET m == nodes[n[2][k]] IN
        m[1] # "add" /\ (m[1] = "pow" /\ m[4] = 1 /\ m[3] > 0 => nodes[m[2]][1] # "add")
  /\ (n[1] = "pow" /\ n[4] = 1 /\ n[3] > 0) => nodes[n[2]][1] # "add"
CmpBad(ev) ==
  LET vs == Vals(ev) IN
  If(\A q \in {1, 2} : Same(Sum(vs, ev.common \o ev.spec[q]), vs[ev.exprs[q]]), "terms-do-not-add-up", ev)
  \cup If(\A i \in Range(ev.common \o ev.spec[1] \o ev.spec[2]) : Expanded(ev.nodes, i), "not-expanded", ev)
  \cup If(Range(ev.spec[1]) \cap Range(ev.spec[2]) = {}, "equal-terms-reported-specific", ev)
  \cup If(Cardinality(Range(ev.common \o ev.spec[1] \o ev.spec[2])) = Len(ev.common) + Len(ev.spec[1]) + Len(ev.spec[2]), "term-reported-twice", ev)
\* ---- names: sequences of characters
NameBad(ev) == If(ev.out = Valid(ev.name), "name", ev) \cup If(ev.ident, "not-an-identifier", ev)
\* ---- shifted functions: coordinates, differentials, displacements
ShiftBad(ev) == If(ev.coordsOut = ev.coords, "coordinates", ev)
                \cup If(ev.diffsOut = [q \in 1..Len(ev.coords) |-> "d" \o ev.coords[q]], "differentials", ev)
                \cup If(ev.dispOut = ev.disp, "displacement", ev)
\* ---- derivatives evaluated at the coordinates: same value, mark removed
EvaldBad(ev) == LET vs == Vals(ev) IN
  If(ev.clean, "evaluation-left", ev) \cup If(Len(vs[ev.arg]) > 0 /\ SameAt(vs[ev.arg], vs[ev.out]), "evaluated-derivative", ev)
\* ---- an operation with options acts on each side
SidesBad(ev) == If(ev.out = ev.want, "wrong-sides", ev) \cup If(ev.kind, "not-an-equation", ev) \cup If(ev.after = ev.operand, "operand-changed", ev)
\* ---- upper part of a matrix: the entries (i, j), i <= j, row by row
Upper(m) == FoldLeft(LAMBDA acc, i : acc \o SubSeq(m[i], i, Len(m[i])), <<>>, [i \in 1..Len(m) |-> i])
TriBad(ev) == If(ev.out = Upper(ev.mat), "upper-part", ev) \cup If(ev.after = ev.mat, "matrix-changed", ev)
Bad(ev) == CASE ev.kind2 = "eq" -> IF ev.op = "reset" THEN {} ELSE EqBad(ev)
             [] ev.kind2 = "truth" -> TruthBad(ev)
             [] ev.kind2 = "grad" -> GradBad(ev)
             [] ev.kind2 = "div" -> DivBad(ev)
             [] ev.kind2 = "cmp" -> CmpBad(ev)
             [] ev.kind2 = "evald" -> EvaldBad(ev)
             [] ev.kind2 = "sides" -> SidesBad(ev)
             [] ev.kind2 = "tri" -> TriBad(ev)
             [] ev.kind2 = "name" -> NameBad(ev)
             [] ev.kind2 = "shift" -> ShiftBad(ev)
             [] OTHER -> { <<"unknown-event", ev.kind2>> }
Init == l = 1 /\ bad = {} /\ nchk = 0 /\ pool = <<>>
Step == /\ l <= Len(Case.events)
        /\ LET ev == Case.events[l] IN
           /\ bad' = bad \cup Bad(ev)
           /\ pool' = IF ev.kind2 # "eq" THEN pool
                      ELSE IF ev.op = "reset" THEN <<>> ELSE Append(pool, Want(ev, Vals(ev)))
        /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
