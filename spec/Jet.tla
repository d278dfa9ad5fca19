-------------------------------- MODULE Jet --------------------------------
(* Truncated power series ("jets") over GF(P) in the variables             *)
(*   z_1 = t (degree <= TD)  and  z_2 .. z_(NV+1) = the space variables    *)
(*   (total degree <= ND).                                                 *)
(* A jet stands for a smooth function near a point; partial derivatives,   *)
(* products, rational powers of functions are exact up to the truncation.  *)
(***************************************************************************)
EXTENDS GF
CONSTANTS NV, ND, TD

SumSeq(e) == FoldLeft(LAMBDA x, y : x + y, 0, e)
MaxDeg == IF ND > TD THEN ND ELSE TD
ExpSet == { e \in [1..(NV+1) -> 0..MaxDeg] : e[1] <= TD /\ SumSeq(Tail(e)) <= ND }
Exps   == SetToSeq(ExpSet)
NC     == Len(Exps)
Idx    == [e \in ExpSet |-> CHOOSE i \in 1..NC : Exps[i] = e]
E0     == [q \in 1..(NV+1) |-> 0]
C0     == Idx[E0]                                  \* index of the constant term
Unit(v) == [q \in 1..(NV+1) |-> IF q = v THEN 1 ELSE 0]

\* products: k-th coefficient is the sum over MulTab[k] of a[i]*b[j]
MulTab == TLCEval([k \in 1..NC |->
  LET ek == Exps[k] IN
  SetToSeq({ <<i, Idx[[q \in 1..(NV+1) |-> ek[q] - Exps[i][q]]]>> :
             i \in { ii \in 1..NC : \A q \in 1..(NV+1) : Exps[ii][q] <= ek[q] } })])

\* derivative with respect to variable v: new[k] = (e_k[v]+1) * old[DerTab[v][k]]
DerTab == TLCEval([v \in 1..(NV+1) |-> [k \in 1..NC |->
  LET up == [q \in 1..(NV+1) |-> IF q = v THEN Exps[k][q] + 1 ELSE Exps[k][q]]
  IN  IF up \in ExpSet THEN <<Exps[k][v] + 1, Idx[up]>> ELSE <<0, 1>>]])
\* antiderivative: new[k] = old[IntTab[v][k]] / e_k[v]
IntTab == TLCEval([v \in 1..(NV+1) |-> [k \in 1..NC |->
  IF Exps[k][v] = 0 THEN <<0, 1>>
  ELSE <<Inv(Exps[k][v]), Idx[[q \in 1..(NV+1) |-> IF q = v THEN Exps[k][q] - 1 ELSE Exps[k][q]]]>>]])

JZero     == TLCEval([k \in 1..NC |-> 0])
JConst(c) == TLCEval([k \in 1..NC |-> IF k = C0 THEN Mod(c) ELSE 0])
JOne      == JConst(1)
JVar(v)   == TLCEval([k \in 1..NC |-> IF Exps[k] = Unit(v) THEN 1 ELSE 0])
JAdd(a,b) == TLCEval([k \in 1..NC |-> (a[k] + b[k]) % P])
JSub(a,b) == TLCEval([k \in 1..NC |-> (a[k] - b[k]) % P])
JNeg(a)   == TLCEval([k \in 1..NC |-> (0 - a[k]) % P])
JScal(c,a) == TLCEval([k \in 1..NC |-> (c * a[k]) % P])
JMul(a,b) == TLCEval([k \in 1..NC |->
  FoldLeft(LAMBDA acc, ij : IF a[ij[1]] = 0 THEN acc ELSE (acc + a[ij[1]] * b[ij[2]]) % P,
           0, MulTab[k])])
JDer(v,a) == TLCEval([k \in 1..NC |-> (DerTab[v][k][1] * a[DerTab[v][k][2]]) % P])
JInt(v,a) == TLCEval([k \in 1..NC |-> (IntTab[v][k][1] * a[IntTab[v][k][2]]) % P])
JDerN(v,n,a) == FoldLeft(LAMBDA acc, i : JDer(v, acc), a, [i \in 1..n |-> i])
JIsConst(a) == \A k \in 1..NC : k # C0 => a[k] = 0
\* restriction to one power of t, put at t^0
JTCoef(n,a) == TLCEval([k \in 1..NC |->
  IF Exps[k][1] # 0 THEN 0 ELSE a[Idx[[Exps[k] EXCEPT ![1] = n]]]])
\* value of the jet at z_v = s (polynomial evaluation in one variable)
JAt(v,s,a) == TLCEval([k \in 1..NC |->
  IF Exps[k][v] # 0 THEN 0
  ELSE FoldLeft(LAMBDA acc, n : LET e == [Exps[k] EXCEPT ![v] = n] IN
                  IF e \in ExpSet THEN (acc + a[Idx[e]] * PowM(Mod(s), n)) % P ELSE acc,
                0, [n \in 1..(MaxDeg+1) |-> n-1])])

NilDeg == ND + TD                      \* z nilpotent => z^(NilDeg+1) = 0
NilSeq == [i \in 1..NilDeg |-> i]
\* natural powers
JPowN(a, n) == FoldLeft(LAMBDA acc, i : JMul(acc, a), JOne, [i \in 1..n |-> i])
\* (1+z)^(n/d), z nilpotent: binomial series
JBinom(z, n, d) ==
  LET al == Rat(n, d)
      r == FoldLeft(LAMBDA acc, m :
             LET c2 == (((acc.c * Mod(al - (m-1))) % P) * Inv(m)) % P
                 p2 == JMul(acc.p, z)
             IN  [c |-> c2, p |-> p2, s |-> JAdd(acc.s, JScal(c2, p2))],
             [c |-> 1, p |-> JOne, s |-> JOne], NilSeq)
  IN r.s
\* exp(z), z nilpotent
JExp(z) ==
  LET r == FoldLeft(LAMBDA acc, m :
             LET p2 == JScal(Inv(m), JMul(acc.p, z))
             IN  [p |-> p2, s |-> JAdd(acc.s, p2)],
             [p |-> JOne, s |-> JOne], NilSeq)
  IN r.s
\* f(a) for a function whose m-th derivative at the constant term is cf(m)
JComp(cf(_), a) ==
  LET z == [a EXCEPT ![C0] = 0]
      r == FoldLeft(LAMBDA acc, m :
             LET p2 == JScal(Inv(m), JMul(acc.p, z))
             IN  [p |-> p2, s |-> JAdd(acc.s, JScal(cf(m), p2))],
             [p |-> JOne, s |-> JConst(cf(0))], NilSeq)
  IN r.s
\* a^(n/d); <<>> when undefined in the model
JPow(a, n, d) ==
  IF d = 1 /\ n >= 0 /\ n <= 12 THEN JPowN(a, n)
  ELSE LET c == a[C0] IN
    IF c = 0 THEN <<>>
    ELSE IF d = 1
      THEN LET ic == Inv(c) IN
           JScal(IF n >= 0 THEN PowM(c, n % (P-1)) ELSE PowM(ic, (0-n) % (P-1)),
                 JBinom(JSub(JScal(ic, a), JOne), n, 1))
      ELSE IF ~IsQR(c) THEN <<>>
           ELSE JScal(RootPow(c, n, d), JBinom(JSub(JScal(Inv(c), a), JOne), n, d))
JInv(a) == JPow(a, -1, 1)
=============================================================================
