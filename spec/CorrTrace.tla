------------------------------ MODULE CorrTrace ------------------------------
(* Closures from correlation models.                                       *)
(*                                                                         *)
(* The jet variables 2..NV+1 are the components of the separation dx.  A   *)
(* tensor field is a symmetric matrix of jets: its value at x + a.dx is    *)
(* the jet with each variable scaled by a, its derivatives at x are        *)
(* alpha! times the coefficients.  The metric is drawn at random, the      *)
(* aspect tensor is its inverse and the diffusion tensor half the aspect   *)
(* tensor (s = 2 nu).  The documented correlation functions are then jets  *)
(* in the separation, and what the implementation delivers is compared     *)
(* with their coefficients.                                                *)
EXTENDS Jet, IOUtils, Json
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
Dim == 1..NV
\* ---- matrices of jets
MAdd(A, B) == [i \in Dim |-> [j \in Dim |-> JAdd(A[i][j], B[i][j])]]
MScal(c, A) == [i \in Dim |-> [j \in Dim |-> JScal(c, A[i][j])]]
Rest(i) == SetToSortSeq(Dim \ {i}, LAMBDA a, b : a < b)
Det2(A, r, c) == JSub(JMul(A[r[1]][c[1]], A[r[2]][c[2]]), JMul(A[r[1]][c[2]], A[r[2]][c[1]]))
Minor(A, i, j) == IF NV = 1 THEN JOne
                  ELSE IF NV = 2 THEN A[Rest(i)[1]][Rest(j)[1]]
                  ELSE Det2(A, Rest(i), Rest(j))
Sgn(i, j) == IF (i + j) % 2 = 0 THEN 1 ELSE P - 1
MDet(A) == FoldLeft(LAMBDA acc, j : JAdd(acc, JScal(Sgn(1, j), JMul(A[1][j], Minor(A, 1, j)))), JZero, [j \in Dim |-> j])
MInv(A) == LET d == JInv(MDet(A)) IN
           TLCEval([i \in Dim |-> [j \in Dim |-> JScal(Sgn(i, j), JMul(d, Minor(A, j, i)))]])
Quad(A, v) == FoldLeft(LAMBDA acc, i : FoldLeft(LAMBDA ac, j : JAdd(ac, JMul(JMul(v[i], v[j]), A[i][j])), acc, [j \in Dim |-> j]),
                       JZero, [i \in Dim |-> i])
\* ---- the world
TD1 == Case.seed
MM == TLCEval([i \in Dim |-> [j \in Dim |-> RndNZ(TD1, 10 * i + j)]])
G0(i, j) == FoldLeft(LAMBDA acc, k : (acc + MM[i][k] * MM[j][k]) % P, 0, [k \in Dim |-> k])
Lo(i, j) == IF i < j THEN i ELSE j
Hi(i, j) == IF i < j THEN j ELSE i
G == TLCEval([i \in Dim |-> [j \in Dim |-> [k \in 1..NC |->
        IF k = C0 THEN G0(i, j) ELSE Rnd(TD1 + 77, 1000 * (10 * Lo(i, j) + Hi(i, j)) + k)]]])
Sp == TLCEval(MInv(G))
Nu == TLCEval(MScal(Inv(2), Sp))
Ten(kind, i, j) == CASE kind = "metric" -> G[i][j] [] kind = "aspect" -> Sp[i][j] [] kind = "diffusion" -> Nu[i][j]
\* scaling of the separation: f(x + a dx)
Scale(a, f) == TLCEval([k \in 1..NC |->
   FoldLeft(LAMBDA acc, q : (acc * PowM(Mod(a[q]), Exps[k][q + 1])) % P, f[k], [q \in Dim |-> q])])
At(kind, a) == TLCEval([i \in Dim |-> [j \in Dim |-> Scale(a, Ten(kind, i, j))]])
Sep(a, b) == [i \in Dim |-> JScal(Mod(b[i] - a[i]), JVar(i + 1))]
\* ---- documented correlation functions of the points x + a dx and x + b dx
Hetero(kind, fac, a, b) ==
  LET A == At(kind, a) B == At(kind, b) S == MAdd(A, B) IN
  TLCEval(JMul(JMul(JMul(JPow(MDet(A), 1, 4), JPow(MDet(B), 1, 4)), JPow(MDet(MScal(Inv(2), S)), -1, 2)),
       JExp(JNeg(JScal(fac, Quad(MInv(S), Sep(a, b)))))))
Local(a, b) == TLCEval(JExp(JNeg(JScal(Inv(2), Quad(At("metric", a), Sep(a, b))))))
Rho(ev) ==
  CASE ev.form = "aspect"    -> Hetero("aspect", 1, ev.px, ev.py)
    [] ev.form = "diffusion" -> Hetero("diffusion", Inv(2), ev.px, ev.py)
    [] ev.form = "local"     -> Local(ev.px, ev.py)
\* the model of the case at x and x + dx
Zero == [i \in Dim |-> 0]
One  == [i \in Dim |-> 1]
Model == TLCEval(IF Case.model = "local" THEN Local(Zero, One) ELSE Hetero("aspect", 1, Zero, One))
Fact(n) == FoldLeft(LAMBDA acc, i : (acc * i) % P, 1, [i \in 1..n |-> i])
\* value of E[eps D^alpha eps]
Term(alpha) == LET k == Idx[<<0>> \o alpha] IN
               FoldLeft(LAMBDA acc, q : (acc * Fact(alpha[q])) % P, Model[k], [q \in Dim |-> q])
\* in metric form the second order terms are minus the metric
MetricTerm(alpha) ==
  IF SumSeq(alpha) # 2 THEN Term(alpha)
  ELSE LET is == SetToSortSeq({ q \in Dim : alpha[q] > 0 }, LAMBDA a, b : a < b) IN
       Mod(0 - G[is[1]][is[Len(is)]][C0])
\* ---- denotation of the delivered expressions
Eval(nodes) == FoldLeft(LAMBDA vals, nd :
   LET op == nd[1] IN
   Append(vals, TLCEval(
   CASE op = "int" -> JConst(nd[2])
     [] op = "rat" -> JConst(Rat(nd[2], nd[3]))
     [] op = "sep" -> JVar(nd[2] + 1)
     [] op = "sym" -> JConst(RndNZ(TD1, 900 + nd[2]))
     [] op = "ten" -> Scale(nd[5], FoldLeft(LAMBDA f, q : JDerN(q + 1, nd[6][q], f), Ten(nd[2], nd[3], nd[4]), [q \in Dim |-> q]))
     [] op = "add" -> FoldLeft(LAMBDA acc, i : IF acc = <<>> \/ vals[i] = <<>> THEN <<>> ELSE JAdd(acc, vals[i]), JZero, nd[2])
     [] op = "mul" -> FoldLeft(LAMBDA acc, i : IF acc = <<>> \/ vals[i] = <<>> THEN <<>> ELSE JMul(acc, vals[i]), JOne, nd[2])
     [] op = "pow" -> IF vals[nd[2]] = <<>> THEN <<>> ELSE JPow(vals[nd[2]], nd[3], nd[4])
     [] op = "exp" -> IF vals[nd[2]] = <<>> \/ vals[nd[2]][C0] # 0 THEN <<>> ELSE JExp(vals[nd[2]])
     [] OTHER -> <<>>)), <<>>, nodes)
Deg(k) == SumSeq(Tail(Exps[k]))
SameTo(n, a, b) == a # <<>> /\ \A k \in 1..NC : Deg(k) <= n => a[k] = b[k]
SameC(a, c) == a # <<>> /\ a[C0] = c
Alphas(n) == { a \in [Dim -> 0..n] : SumSeq(a) <= n }
AlphasEq(n) == { a \in [Dim -> 0..n] : SumSeq(a) = n }
Lab(ev) == ev.text
TermsBad(ev, want(_)) ==
  LET vs == Eval(ev.nodes)
      asked == Alphas(ev.ord)
      got == { ev.terms[q].alpha : q \in 1..Len(ev.terms) }
  IN (IF got = asked /\ Len(ev.terms) = Cardinality(asked) THEN {} ELSE { <<"keys", Lab(ev)>> })
     \cup { <<"level", Lab(ev), ev.terms[q].alpha>> : q \in { q \in 1..Len(ev.terms) : ev.terms[q].level # -1 /\ ev.terms[q].level # SumSeq(ev.terms[q].alpha) } }
     \* a term stands for the one the dynamics hold
     \cup { <<"term-not-applicable", Lab(ev), ev.terms[q].alpha>> : q \in { q \in 1..Len(ev.terms) : ~ev.terms[q].applies } }
     \cup { <<"value", Lab(ev), ev.terms[q].alpha>> : q \in
            { q \in 1..Len(ev.terms) : /\ Len(ev.terms[q].alpha) = NV /\ SumSeq(ev.terms[q].alpha) <= ND
                                       /\ ~SameC(vs[ev.terms[q].root], want(ev.terms[q].alpha)) } }
\* the expansion to order n: exact below that order, and no term of a higher
\* order in a component of the separation
TaylorBad(ev) == LET v == TLCEval(Eval(ev.nodes)[ev.root]) IN
  (IF SameTo(ev.ord - 1, v, Model) THEN {} ELSE { <<"taylor", Lab(ev)>> })
  \cup (IF v = <<>> \/ \A k \in 1..NC : (\E q \in Dim : Exps[k][q + 1] >= ev.ord) => v[k] = 0 THEN {} ELSE { <<"taylor-too-long", Lab(ev)>> })
Bad(ev) ==
  CASE ev.kind = "corr" -> (IF SameTo(ND, Eval(ev.nodes)[ev.root], Rho(ev)) THEN {} ELSE { <<"correlation", Lab(ev)>> })
    [] ev.kind = "taylor" -> TaylorBad(ev)
    [] ev.kind \in {"closure", "by_order"} -> TermsBad(ev, Term)
    [] ev.kind = "in_metric" -> TermsBad(ev, MetricTerm)
    [] OTHER -> { <<"unknown-event", ev.kind>> }
Cnt(ev) == IF ev.kind \in {"corr", "taylor"} THEN 1 ELSE Len(ev.terms) + 1
Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ l <= Len(Case.events)
        /\ bad' = bad \cup Bad(Case.events[l])
        /\ nchk' = nchk + Cnt(Case.events[l])
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
