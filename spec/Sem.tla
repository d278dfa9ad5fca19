-------------------------------- MODULE Sem --------------------------------
(* Denotation of symbolic expressions.                                     *)
(*                                                                         *)
(* An expression is a straight-line program ("nodes"): node i refers to    *)
(* earlier nodes by index.  Its value is a sequence of jets:               *)
(*   <<j>>         a deterministic quantity,                               *)
(*   <<j1..jK>>    a random quantity, one jet per outcome of a probability *)
(*                 space with K equiprobable outcomes,                     *)
(*   <<>>          undefined (division by zero, root of a non-residue,     *)
(*                 symbol without meaning).                                *)
(* The expectation is the mean over the outcomes, a derivative is the      *)
(* derivative of the jet, an integral the antiderivative.                  *)
(***************************************************************************)
EXTENDS Jet
CONSTANT K                                   \* number of outcomes

InvK == Inv(K)
Undef == <<>>
Det(j) == <<j>>

Map1(Op(_), a) == IF Len(a) = 0 THEN Undef ELSE TLCEval([i \in 1..Len(a) |-> Op(a[i])])
\* a pointwise unary partial operation: undefined as soon as one outcome is
Map1P(Op(_), a) == LET r == Map1(Op, a) IN
                   IF \E i \in 1..Len(r) : r[i] = <<>> THEN Undef ELSE r
Map2(Op(_,_), a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN Undef
  ELSE IF Len(a) = Len(b) THEN TLCEval([i \in 1..Len(a) |-> Op(a[i], b[i])])
  ELSE IF Len(a) = 1 THEN TLCEval([i \in 1..Len(b) |-> Op(a[1], b[i])])
  ELSE TLCEval([i \in 1..Len(a) |-> Op(a[i], b[1])])
VAdd(a,b) == Map2(JAdd, a, b)
VSub(a,b) == Map2(JSub, a, b)
VMul(a,b) == Map2(JMul, a, b)
VNeg(a)   == Map1(JNeg, a)
VScal(c,a) == Map1(LAMBDA j : JScal(c, j), a)
VPow(a,n,d) == Map1P(LAMBDA j : JPow(j, n, d), a)
VDer(v,n,a) == Map1(LAMBDA j : JDerN(v, n, j), a)
VInt(v,a) == Map1(LAMBDA j : JInt(v, j), a)
VTCoef(n,a) == Map1(LAMBDA j : JTCoef(n, j), a)
\* the exponential: the only homomorphism of the additive group of the field to
\* the multiplicative one is trivial, so exp(a0) = 1 (exp(a+b) = exp(a)exp(b))
VExp(a) == Map1(LAMBDA j : JExp([j EXCEPT ![C0] = 0]), a)
\* sine and cosine: a pseudo-random point of the unit circle per angle (the
\* derivatives and sin^2 + cos^2 = 1 hold, the addition formulas do not)
Circle(x) == LET r == Rnd(77, x)
                 q == (r * r) % P
                 d == Inv((1 + q) % P)
             IN  << (((2 * r) % P) * d) % P, (Mod(1 - q) * d) % P >>
JTrig(sh, j) == LET sc == Circle(j[C0])
                    cyc == << sc[1], sc[2], Mod(0 - sc[1]), Mod(0 - sc[2]) >>
                IN  JComp(LAMBDA m : cyc[((m + sh) % 4) + 1], j)
VSin(a) == Map1(LAMBDA j : JTrig(0, j), a)
VCos(a) == Map1(LAMBDA j : JTrig(1, j), a)
\* logarithm: pseudo-random at the base point, exact derivatives
JLog(j) == IF j[C0] = 0 THEN <<>>
           ELSE LET ic == Inv(j[C0])
                    u == JSub(JScal(ic, j), JOne)
                IN  JComp(LAMBDA m : IF m = 0 THEN Rnd(78, j[C0])
                                     ELSE FoldLeft(LAMBDA acc, q : (acc * Mod(0 - q)) % P, 1, [q \in 1..(m-1) |-> q]), u)
VLog(a) == Map1P(JLog, a)
\* an arbitrary smooth function of one or two arguments: its Taylor
\* coefficients at a point are pseudo-random functions of the point
VApp1(salt, a) == Map1(LAMBDA j : JComp(LAMBDA m : Rnd((salt + 37*m) % P, j[C0]), j), a)
VApp(salt, vs) == FoldLeft(LAMBDA acc, q : VAdd(VMul(acc, VApp1(salt + 1000 + q, vs[q])), VApp1(salt + 2000 + q, vs[q])),
                           VApp1(salt, vs[1]), [q \in 1..(Len(vs) - 1) |-> q + 1])
Mean(a) == IF Len(a) <= 1 THEN a
           ELSE <<JScal(InvK, FoldLeft(JAdd, JZero, a))>>
VOne  == <<JOne>>
VZero == <<JZero>>
VConst(c) == <<JConst(c)>>
\* value at the base point
Pt(a) == [i \in 1..Len(a) |-> a[i][C0]]
\* two values agree at the base point (a deterministic value may be written
\* as a random one that takes the same value on all outcomes)
SameAt(a, b) == /\ Len(a) > 0 /\ Len(b) > 0
                /\ \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) :
                     a[IF Len(a) = 1 THEN 1 ELSE i][C0] = b[IF Len(b) = 1 THEN 1 ELSE i][C0]

Lookup(f, key) == IF key \in DOMAIN f THEN f[key] ELSE Undef

EvalNode(nd, vals, env) ==
  LET op == nd[1] IN
  CASE op = "int" -> VConst(nd[2])
    [] op = "rat" -> VConst(Rat(nd[2], nd[3]))
    [] op = "sym" -> Lookup(env.syms, nd[2])
    [] op = "fun" -> Lookup(env.funs, nd[2])
    [] op = "add" -> FoldLeft(LAMBDA acc, i : VAdd(acc, vals[i]), VZero, nd[2])
    [] op = "mul" -> FoldLeft(LAMBDA acc, i : VMul(acc, vals[i]), vals[nd[2][1]], Tail(nd[2]))
    [] op = "pow" -> VPow(vals[nd[2]], nd[3], nd[4])
    [] op = "exp" -> VExp(vals[nd[2]])
    [] op = "sin" -> VSin(vals[nd[2]])
    [] op = "cos" -> VCos(vals[nd[2]])
    [] op = "log" -> VLog(vals[nd[2]])
    [] op = "app" -> VApp(nd[3], [q \in 1..Len(nd[2]) |-> vals[nd[2][q]]])
    [] op = "D"   -> FoldLeft(LAMBDA acc, vn : VDer(vn[1], vn[2], acc), vals[nd[2]], nd[3])
    [] op = "I"   -> FoldLeft(LAMBDA acc, v : VInt(v, acc), vals[nd[2]], nd[3])
    [] op = "ID"  -> Map1(LAMBDA j : LET p == JInt(nd[3], j) IN
                          JSub(JAt(nd[3], nd[5] - env.base[nd[3]], p),
                               JAt(nd[3], nd[4] - env.base[nd[3]], p)), vals[nd[2]])
    [] op = "E"   -> IF nd[3] \in DOMAIN env.ovr THEN env.ovr[nd[3]] ELSE Mean(vals[nd[2]])
    [] OTHER -> Undef
\* "IL": an integral with symbolic limits (body, then limits), or a derivative
\* by another variable: structure only
Children(nd) == CASE nd[1] \in {"add", "mul", "app", "IL"} -> nd[2]
                  [] nd[1] \in {"pow", "exp", "sin", "cos", "log", "D", "I", "ID", "E"} -> <<nd[2]>>
                  [] OTHER -> <<>>
\* A quantity is random iff a random function occurs outside every expectation
FreeRandom(nodes, isRandomFun(_)) ==
  FoldLeft(LAMBDA fl, nd :
    LET ch == Children(nd) IN
    Append(fl, CASE nd[1] = "fun" -> isRandomFun(nd[2])
                 [] nd[1] = "sym" -> nd[2] = "omega"
                 [] nd[1] = "E"   -> FALSE
                 [] OTHER -> \E q \in 1..Len(ch) : fl[ch[q]]),
    <<>>, nodes)
\* symbols (coordinates, constants) occurring in each node; funVars = arguments
\* of a function, varName = name of a coordinate
SymsIn(nodes, funVars(_), varName(_)) ==
  FoldLeft(LAMBDA acc, nd :
    LET ch == Children(nd) IN
    Append(acc, CASE nd[1] = "fun" -> funVars(nd[2])
                  [] nd[1] = "sym" -> {nd[2]}
                  [] nd[1] = "D" -> acc[nd[2]] \cup { varName(nd[3][q][1]) : q \in 1..Len(nd[3]) }
                  [] nd[1] = "I" -> acc[nd[2]] \cup { varName(nd[3][q]) : q \in 1..Len(nd[3]) }
                  [] nd[1] = "ID" -> acc[nd[2]] \cup { varName(nd[3]) }
                  [] nd[1] = "IL" -> UNION { acc[ch[q]] : q \in 1..Len(ch) } \cup { varName(nd[3][q]) : q \in 1..Len(nd[3]) }
                  [] OTHER -> UNION { acc[ch[q]] : q \in 1..Len(ch) }),
    <<>>, nodes)
EvalAll(nodes, env) ==
  FoldLeft(LAMBDA vals, nd : Append(vals, TLCEval(EvalNode(nd, vals, env))), <<>>, nodes)
=============================================================================
