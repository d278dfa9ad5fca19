------------------------------ MODULE ModelOrder ------------------------------
(* The formulas of ModelSem have the order of accuracy they are known for. *)
(*                                                                         *)
(* One step of size h from t0 is expanded as a power series in h (jets of  *)
(* Jet.tla in the variable z_1 = h): scheme and exact solution agree up to *)
(* the order of the scheme and differ at the next one.  The exact solution *)
(* u' = f(t,u) is computed by Picard iteration in the same ring.           *)
(***************************************************************************)
EXTENDS Jet
CONSTANTS NTRENDS
VARIABLES n
vars == <<n>>

\* trends in t and u (scalar or two components), as operators on jets
Cst(i, j) == JConst(RndNZ(100*i + 7, j))
Fun(i, t, u) ==
  CASE i % 3 = 0 -> <<JAdd(JMul(Cst(i,1), JMul(u[1], u[1])), JMul(Cst(i,2), t))>>
    [] i % 3 = 1 -> <<JAdd(JMul(u[1], u[2]), JMul(Cst(i,1), JMul(t, u[1]))),
                      JAdd(JMul(Cst(i,2), JMul(u[1], u[1])), JMul(t, JMul(t, u[2])))>>
    [] OTHER     -> <<JAdd(JMul(u[1], JMul(u[1], u[2])), Cst(i,3)), JSub(JMul(Cst(i,4), u[1]), JMul(t, t))>>
Dim(i) == IF i % 3 = 0 THEN 1 ELSE 2
T0(i) == JConst(RndNZ(i, 50))
U0(i) == [k \in 1..Dim(i) |-> JConst(RndNZ(i, 60 + k))]
H == JVar(1)
Add(a, b) == [k \in 1..Len(a) |-> JAdd(a[k], b[k])]
Scl(c, a) == [k \in 1..Len(a) |-> JMul(c, a[k])]
half == JConst(Inv(2))
\* exact solution at t0 + h, series in h
Exact(i) == LET T == JAdd(T0(i), H)
            IN  FoldLeft(LAMBDA u, m : TLCEval([k \in 1..Dim(i) |-> JAdd(U0(i)[k], JInt(1, Fun(i, T, u)[k]))]),
                         U0(i), [m \in 1..(TD+1) |-> m])
EulerS(i) == Add(U0(i), Scl(H, Fun(i, T0(i), U0(i))))
MidS(i) == LET hh == JMul(half, H)
               m == Add(U0(i), Scl(hh, Fun(i, T0(i), U0(i))))
           IN  Add(U0(i), Scl(H, Fun(i, JAdd(T0(i), hh), m)))
RK4S(i) == LET hh == JMul(half, H)
               k1 == TLCEval(Fun(i, T0(i), U0(i)))
               k2 == TLCEval(Fun(i, JAdd(T0(i), hh), Add(U0(i), Scl(hh, k1))))
               k3 == TLCEval(Fun(i, JAdd(T0(i), hh), Add(U0(i), Scl(hh, k2))))
               k4 == TLCEval(Fun(i, JAdd(T0(i), H), Add(U0(i), Scl(H, k3))))
           IN  Add(U0(i), Scl(JScal(Inv(6), H), Add(Add(k1, Scl(JConst(2), k2)), Add(Scl(JConst(2), k3), k4))))
\* leapfrog from the exact value at t0 - h
LeapS(i) == LET back == [k \in 1..Dim(i) |-> [q \in 1..NC |-> IF Exps[q][1] % 2 = 1 THEN (0 - Exact(i)[k][q]) % P ELSE Exact(i)[k][q]]]
            IN  Add(back, Scl(JScal(2, H), Fun(i, T0(i), U0(i))))
AgreeTo(a, b, p) == \A k \in 1..Len(a) : \A q \in 1..NC : Exps[q][1] <= p => a[k][q] = b[k][q]
Order(S(_), i, p) == LET e == TLCEval(Exact(i)) s == TLCEval(S(i))
                     IN  AgreeTo(s, e, p) /\ ~AgreeTo(s, e, p + 1)
Init == n = 0
Next == n < NTRENDS /\ n' = n + 1
Spec == Init /\ [][Next]_vars
OrdersHold == n > 0 => LET i == n IN /\ Order(EulerS, i, 1) /\ Order(MidS, i, 2) /\ Order(RK4S, i, 4) /\ Order(LeapS, i, 2)
=============================================================================
