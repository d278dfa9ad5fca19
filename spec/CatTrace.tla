------------------------------ MODULE CatTrace ------------------------------
(* The ready-made catalogue of dynamics and the documented closure of the  *)
(* Burgers reference model.  Jet variables: 1 = t, 2.. = x, y, z.          *)
(* Each entry of the catalogue is compared with the equation that its name *)
(* documents, written here from jets of its fields.                        *)
EXTENDS Sem, IOUtils, Json
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
\* a function of the variables vs (a set): coefficients of the other variables are zero
RndJet(salt, vs) == TLCEval([k \in 1..NC |->
   IF \A q \in 1..(NV + 1) : Exps[k][q] = 0 \/ q \in vs THEN RndQR(Case.seed + salt, k) ELSE 0])
VarSet(args) == { a + 0 : a \in Range(args) }
\* the fields occurring in the entry: name -> jet
Jets == TLCEval([f \in DOMAIN Case.funs |-> RndJet(31 * Case.funs[f].salt, VarSet(Case.funs[f].vars))])
Env == [funs |-> [f \in DOMAIN Case.funs |-> <<Jets[f]>>],
        syms |-> [s \in DOMAIN Case.syms |-> IF Case.syms[s] < 0 THEN VConst(RndNZ(Case.seed, 0 - Case.syms[s])) ELSE <<JVar(Case.syms[s])>>],
        ovr |-> [s \in {} |-> 0], base |-> [q \in 1..(NV + 1) |-> 0]]
S(s) == Env.syms[s][1]
D(v, n, j) == JDerN(v, n, j)
Sum(seq) == FoldLeft(JAdd, JZero, seq)
Neg(j) == JNeg(j)
\* ---- the documented dynamics (right hand side of D_t f)
Adv(c, ws) == Neg(Sum([q \in 1..Len(ws) |-> JMul(ws[q], D(q + 1, 1, c))]))
Diff(c, T) == Sum([i \in 1..Len(T) |-> D(i + 1, 1, Sum([j \in 1..Len(T) |-> JMul(T[i][j], D(j + 1, 1, c))]))])
Doc(name, f, J) ==      \* f: the transported field, J: the other fields in their documented order
  CASE name = "burgers"   -> Sum(<<Neg(JMul(f, D(2, 1, f))), JMul(S("\\kappa"), D(2, 2, f))>>)
    [] name = "kuramoto"  -> Sum(<<Neg(JMul(f, D(2, 1, f))), Neg(JMul(S("\\kappa"), D(2, 2, f))), Neg(JMul(S("\\eta"), D(2, 4, f)))>>)
    [] name = "diffusion" -> JMul(S("\\kappa"), D(2, 2, f))
    [] name \in {"advection", "advection_in_2D", "advection_in_3D"} -> Adv(f, J)
    [] name = "diffusion_in_2D" -> Diff(f, <<<<J[1], J[2]>>, <<J[2], J[3]>>>>)
NArgs(name) == CASE name \in {"advection_in_2D", "diffusion_in_2D"} -> 2 [] name = "advection_in_3D" -> 3 [] OTHER -> 1
Others(name) == CASE name = "advection" -> <<"u">> [] name = "advection_in_2D" -> <<"u", "v">>
                  [] name = "advection_in_3D" -> <<"u", "v", "w">>
                  [] name = "diffusion_in_2D" -> <<"\\kappa_{11}", "\\kappa_{12}", "\\kappa_{22}">>
                  [] OTHER -> <<>>
Field(name) == IF name \in {"advection", "advection_in_2D", "advection_in_3D"} THEN "c" ELSE "u"
Space(n) == { q + 1 : q \in 1..n }
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
EntryBad(ev) ==
  LET need == {Field(ev.name)} \cup ToSet(Others(ev.name))
      n == NArgs(ev.name)
  IN If(DOMAIN Case.funs = need, "fields", ev) \cup If(ev.neq = 1, "number-of-equations", ev)
     \cup (IF DOMAIN Case.funs # need \/ ev.neq # 1 THEN {}
           ELSE LET vs == TLCEval(EvalAll(ev.nodes, Env))
                    f == Jets[Field(ev.name)]
                    J == [q \in 1..Len(Others(ev.name)) |-> Jets[Others(ev.name)[q]]]
                IN If(VarSet(Case.funs[Field(ev.name)].vars) = {1} \cup Space(n), "arguments-of-field", ev)
                   \cup If(\A q \in 1..Len(J) : VarSet(Case.funs[Others(ev.name)[q]].vars) = Space(n), "arguments-of-given", ev)
                   \cup If(SameAt(vs[ev.lhs], <<D(1, 1, f)>>), "left-hand-side", ev)
                   \cup If(SameAt(vs[ev.rhs], <<Doc(ev.name, f, J)>>), "right-hand-side", ev))
\* quasi-Gaussian closure of E[eps D^4 eps]: 3 g^2 - 2 D^2 g, with g = 1/s in aspect form
ClosureBad(ev) ==
  LET vs == TLCEval(EvalAll(ev.nodes, Env))
      tensor == IF ev.form = "metric" THEN Jets[ev.field] ELSE JInv(Jets[ev.field])
      want == JSub(JScal(3, JMul(tensor, tensor)), JScal(2, D(2, 2, tensor)))
  IN If(SameAt(vs[ev.rhs], <<want>>), "closure", ev)
FactBad(ev) == If(ev.value, ev.name, ev)
Bad(ev) == CASE ev.kind = "entry" -> EntryBad(ev) [] ev.kind = "closure" -> ClosureBad(ev) [] ev.kind = "fact" -> FactBad(ev)
Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ l <= Len(Case.events)
        /\ bad' = bad \cup Bad(Case.events[l])
        /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
