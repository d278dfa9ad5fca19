------------------------------ MODULE PKFReal ------------------------------
(* The parametric Kalman filter dynamics, from first principles.           *)
(*                                                                         *)
(* A system of evolution equations  d/dt u_i = F_i(u)  is realised near a  *)
(* point: mean fields ub_i, standard deviations sg_i and normalised errors *)
(* ep_i (centred, of unit variance: reflections of a fixed unit vector by  *)
(* random sum-zero directions) are random power series in space.  The      *)
(* right-hand side is expanded at u = ub + tau*e with e = sg*ep:           *)
(*      F(ub + tau e) = c0 + tau c1 + tau^2 c2 + ...                       *)
(* and the specification of the filter is                                  *)
(*      d/dt mean  = E[c0 + c1 + c2]          d/dt error = c1 - E[c1]      *)
(* from which every statistic (variance, covariance, metric, aspect,       *)
(* diffusion) gets its true time derivative by definition, as a power      *)
(* series in t.  No formula of the implementation is repeated here.        *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils, SequencesExt

Case == JsonDeserialize(IOEnv.CASE)
Seed == Case.seed
NF   == Len(Case.rhs)                        \* number of prognostic fields
FieldIds == 1..NF
Dims == 1..NV                                \* space variables; jet variable a+1

\* ---- random data --------------------------------------------------------
RJet(salt, vars, zeroT) ==
  TLCEval([k \in 1..NC |->
    IF \E q \in 1..(NV+1) : Exps[k][q] > 0 /\ q \notin vars THEN 0
    ELSE IF zeroT /\ Exps[k][1] > 0 THEN 0
    ELSE IF k = C0 THEN RndNZ(Seed + salt, 977) ELSE Rnd(Seed + salt, k)])
SpaceVars == 2..(NV+1)
JSq(j) == JMul(j, j)
\* (means and standard deviations are squares at the point: their roots exist)
Mean0  == TLCEval([i \in FieldIds |->
            <<LET j == RJet(100*i, SpaceVars, TRUE) IN [j EXCEPT ![C0] = RndQR(Seed + 100*i, 57)]>>])
Sigma0 == TLCEval([i \in FieldIds |->
            <<LET j == RJet(100*i + 1, SpaceVars, TRUE) IN [j EXCEPT ![C0] = RndQR(Seed + 100*i, 55)]>>])
\* normalised error: reflection of (1,..,1,-1,..,-1) by a sum-zero direction
Eps00 == TLCEval([k \in 1..K |-> IF k <= K \div 2 THEN JOne ELSE JNeg(JOne)])
Dir(i) == LET d == [k \in 1..(K-1) |-> RJet(100*i + 2 + k, SpaceVars, TRUE)]
          IN  TLCEval(Append(d, JNeg(FoldLeft(JAdd, JZero, d))))
Dot(a,b) == FoldLeft(JAdd, JZero, [k \in 1..K |-> JMul(a[k], b[k])])
Eps0 == TLCEval([i \in FieldIds |->
          LET d == Dir(i)
              f == JScal(2, JMul(Dot(Eps00, d), JPow(Dot(d, d), -1, 1)))
          IN  TLCEval([k \in 1..K |-> JSub(Eps00[k], JMul(f, d[k]))])])
Err0 == TLCEval([i \in FieldIds |-> VMul(Sigma0[i], Eps0[i])])

\* ---- meaning of the given symbols and functions -------------------------
SymVal(r, n) ==
  CASE r[1] = "coord" -> <<JAdd(JConst(RndNZ(Seed + 5000, r[2])), JVar(r[2]))>>
    [] r[1] = "const" -> <<JConst(RndNZ(Seed + 6000, r[2]))>>
    [] r[1] = "posconst" -> <<JConst(RndQR(Seed + 6000, r[2]))>>
    [] OTHER -> Undef
GivenVal(r) == <<RJet(7000 + r[2], Range(r[3]), FALSE)>>
Frozen(v)   == VTCoef(0, v)
Syms == TLCEval([s \in DOMAIN Case.syms |-> SymVal(Case.syms[s], s)])

\* ---- expansion of the right-hand sides ----------------------------------
FrozenSyms == TLCEval([s \in DOMAIN Case.syms |-> Frozen(Syms[s])])
LinEnv ==
  [syms |-> FrozenSyms, ovr |-> [k \in {} |-> 0],
   funs |-> TLCEval([k \in DOMAIN Case.funs |->
      LET r == Case.funs[k] IN
      CASE r[1] = "mean"  -> VAdd(Mean0[r[2]], VMul(<<JVar(1)>>, Err0[r[2]]))
        [] r[1] = "given" -> Frozen(GivenVal(r))
        [] OTHER -> Undef])]
RhsVals == TLCEval(LET vs == EvalAll(Case.rhsnodes, LinEnv)
                   IN [i \in FieldIds |-> vs[Case.rhs[i]]])
Coef(n) == TLCEval([i \in FieldIds |-> VTCoef(n, RhsVals[i])])
c0 == Coef(0)
c1 == Coef(1)
c2 == Coef(2)
Second(i) == VAdd(VAdd(c0[i], c1[i]), c2[i])
MeanTrend == TLCEval([i \in FieldIds |-> Mean(Second(i))])
ErrTrend  == TLCEval([i \in FieldIds |-> VSub(c1[i], Mean(c1[i]))])
Defined   == \A i \in FieldIds : Len(RhsVals[i]) > 0

\* ---- meaning of all the symbols of the filter ---------------------------
\* mt, et: time derivatives of the means and of the errors
Extend(v0, trend) == VAdd(v0, VMul(<<JVar(1)>>, trend))
MatInv(m) ==            \* m: NV x NV matrix of deterministic values
  LET mm(a,b,c,d) == VSub(VMul(a,d), VMul(b,c)) IN
  IF NV = 1 THEN << <<VPow(m[1][1], -1, 1)>> >>
  ELSE IF NV = 2 THEN
    LET id == VPow(mm(m[1][1], m[1][2], m[2][1], m[2][2]), -1, 1) IN
    << <<VMul(id, m[2][2]), VNeg(VMul(id, m[1][2]))>>,
       <<VNeg(VMul(id, m[2][1])), VMul(id, m[1][1])>> >>
  ELSE
    LET o(n) == IF n >= 3 THEN n - 2 ELSE n + 1
        cof(r,c) == mm(m[o(r)][o(c)], m[o(r)][o(c+1)], m[o(r+1)][o(c)], m[o(r+1)][o(c+1)])
        det == VAdd(VAdd(VMul(m[1][1], cof(1,1)), VMul(m[1][2], cof(1,2))), VMul(m[1][3], cof(1,3)))
        id == VPow(det, -1, 1)
    IN  [r \in 1..3 |-> [c \in 1..3 |-> VMul(id, cof(c, r))]]
World(mt, et) ==
  LET mean == TLCEval([i \in FieldIds |-> Extend(Mean0[i], mt[i])])
      err  == TLCEval([i \in FieldIds |-> Extend(Err0[i], et[i])])
      var  == TLCEval([i \in FieldIds |-> Mean(VMul(err[i], err[i]))])
      std  == TLCEval([i \in FieldIds |-> VPow(var[i], 1, 2)])
      eps  == TLCEval([i \in FieldIds |-> VMul(err[i], VPow(std[i], -1, 1))])
      met  == TLCEval([i \in FieldIds |-> [a \in Dims |-> [b \in Dims |->
                 Mean(VMul(VDer(a+1, 1, eps[i]), VDer(b+1, 1, eps[i])))]]])
      asp  == TLCEval([i \in FieldIds |-> MatInv(met[i])])
      half == Rat(1,2)
      fv(r) == CASE r[1] = "mean"   -> mean[r[2]]
                 [] r[1] = "random" -> VAdd(mean[r[2]], err[r[2]])
                 [] r[1] = "err"    -> err[r[2]]
                 [] r[1] = "eps"    -> eps[r[2]]
                 [] r[1] = "var"    -> var[r[2]]
                 [] r[1] = "std"    -> std[r[2]]
                 [] r[1] = "g"      -> met[r[2]][r[3]][r[4]]
                 [] r[1] = "s"      -> asp[r[2]][r[3]][r[4]]
                 [] r[1] = "nu"     -> VScal(half, asp[r[2]][r[3]][r[4]])
                 [] r[1] = "cov"    -> Mean(VMul(err[r[2]], err[r[3]]))
                 [] r[1] = "given"  -> GivenVal(r)
                 [] OTHER -> Undef
  IN [syms |-> Syms, ovr |-> [k \in {} |-> 0], asp |-> asp,
      funs |-> TLCEval([k \in DOMAIN Case.funs |-> fv(Case.funs[k])])]

MainWorld   == TLCEval(World(MeanTrend, ErrTrend))
FirstWorld  == TLCEval(World(c0, c1))
SecondWorld == TLCEval(World(MeanTrend, [i \in FieldIds |-> VSub(Second(i), MeanTrend[i])]))
WorldOf(name) == IF name = "first" THEN FirstWorld
                 ELSE IF name = "second" THEN SecondWorld ELSE MainWorld

\* ---- what a complete system has equations for ---------------------------
Upper(i)  == { <<a, b>> \in Dims \X Dims : a <= b }
Roles(kind) ==
  CASE kind = "mean" -> { <<"mean", i>> : i \in FieldIds }
    [] kind = "err"  -> { <<"err", i>> : i \in FieldIds }
    [] kind = "eps"  -> { <<"eps", i>> : i \in FieldIds }
    [] kind = "var"  -> { <<"var", i>> : i \in FieldIds }
    [] kind = "std"  -> { <<"std", i>> : i \in FieldIds }
    [] kind = "cov"  -> { <<"cov", ij[1], ij[2]>> : ij \in { p \in FieldIds \X FieldIds : p[1] < p[2] } }
    [] kind \in {"g", "s", "nu"} -> { <<kind, i, ab[1], ab[2]>> : i \in FieldIds, ab \in Upper(1) }
    [] OTHER -> {}
Expected(sys) ==
  CASE sys \in {"first", "second"} -> Roles("mean")
    [] sys \in {"expectation", "tl_expectation"} -> Roles("mean")
    [] sys = "error" -> Roles("err")
    [] sys = "epsilon" -> Roles("eps")
    [] sys = "variance" -> Roles("var")
    [] sys = "std" -> Roles("std")
    [] sys = "cross_covariance" -> Roles("cov")
    [] sys = "metric" -> Roles("g")
    [] sys = "in_metric" -> Roles("mean") \cup Roles("var") \cup Roles("cov") \cup Roles("g")
    [] sys = "in_diffusion" -> Roles("mean") \cup Roles("var") \cup Roles("cov") \cup Roles("nu")
    [] sys = "in_aspect" -> Roles("mean") \cup Roles("var") \cup Roles("cov") \cup Roles("s")
    [] OTHER -> {}

\* ---- trace ---------------------------------------------------------------
(* Event kinds                                                              *)
(*  system   : eqs = sequence of [role, lhs, rhs] (node numbers)            *)
(*  identity : pairs = sequence of [name, lhs, rhs]                         *)
(*  closed   : a system delivered with a closure; "ovr" gives for every     *)
(*             closed expectation (by key) the node of the supplied value;  *)
(*             eqs = [role, rhs]; base = equations of the unclosed metric   *)
(*             formulation [role, rhs]                                      *)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>

\* Delivered systems (in_...) must not contain a random quantity outside an
\* expectation, nor an expectation of anything but normalised errors.
Flags(nodes) ==         \* per node: <<random outside E, holds a raw random field>>
  FoldLeft(LAMBDA fl, nd :
    LET r  == IF nd[1] = "fun" /\ nd[2] \in DOMAIN Case.funs THEN Case.funs[nd[2]][1] ELSE ""
        ch == Children(nd)
    IN  Append(fl,
          << IF nd[1] = "E" THEN FALSE
             ELSE r \in {"random", "err", "eps"} \/ \E q \in 1..Len(ch) : fl[ch[q]][1],
             r \in {"random", "err"} \/ \E q \in 1..Len(ch) : fl[ch[q]][2] >>),
    <<>>, nodes)
LeakBad(ev, eqs) ==
  IF ~ev.clean THEN {} ELSE
  LET fl == Flags(ev.nodes) IN
  { <<ev.name, "random-leak", eqs[n][1]>> : n \in { m \in 1..Len(eqs) : fl[eqs[m][2]][1] \/ fl[eqs[m][2]][2] } }

\* nodes on which the nodes of a set depend
Reach(nodes, roots) ==
  FoldLeft(LAMBDA acc, n : LET i == Len(nodes) + 1 - n IN
             IF i \in acc THEN acc \cup Range(Children(nodes[i])) ELSE acc,
           roots, [n \in 1..Len(nodes) |-> n])
\* a right-hand side gives the trend: it holds no time derivative of a
\* quantity that evolves
Evolving == {"mean", "random", "err", "eps", "var", "std", "g", "s", "nu", "cov"}
HoldsEvolving(nodes) ==
  FoldLeft(LAMBDA fl, nd :
    LET ch == Children(nd) IN
    Append(fl, IF nd[1] = "fun" THEN nd[2] \in DOMAIN Case.funs /\ Case.funs[nd[2]][1] \in Evolving
               ELSE \E q \in 1..Len(ch) : fl[ch[q]]),
    <<>>, nodes)
ImplicitBad(ev, eqs) ==
  LET ho == TLCEval(HoldsEvolving(ev.nodes))
      tm == { i \in 1..Len(ev.nodes) : ev.nodes[i][1] = "D" /\ ho[i]
                 /\ \E q \in 1..Len(ev.nodes[i][3]) : ev.nodes[i][3][q][1] = 1 }
  IN  IF tm = {} THEN {} ELSE
      { <<ev.name, "implicit", eqs[n][1]>> : n \in { m \in 1..Len(eqs) : Reach(ev.nodes, {eqs[m][2]}) \cap tm # {} } }

\* a formulation is written with its own tensor (and variances): the other
\* tensors and the standard deviations have no equation in it.  The errors are
\* normalised in all the dynamics of the parameters: one error, two names for
\* the same term otherwise
Foreign(sys) == CASE sys = "in_metric" -> {"nu", "s", "std"}
                  [] sys = "in_diffusion" -> {"g", "s", "std"}
                  [] sys = "in_aspect" -> {"g", "nu", "std"}
                  [] sys \in {"epsilon", "expectation", "variance", "std", "cross_covariance", "metric"} -> {"err"}
                  [] OTHER -> {}
ForeignBad(ev, eqs) ==
  LET fo == Foreign(ev.name)
      at == { i \in 1..Len(ev.nodes) : ev.nodes[i][1] = "fun" /\ ev.nodes[i][2] \in DOMAIN Case.funs
                                        /\ Case.funs[ev.nodes[i][2]][1] \in fo }
  IN  IF at = {} THEN {} ELSE
      { <<ev.name, "foreign-parameter", eqs[n][1]>> : n \in { m \in 1..Len(eqs) : Reach(ev.nodes, {eqs[m][2]}) \cap at # {} } }

SystemBad(ev) ==
  LET w  == WorldOf(ev.world)
      vs == TLCEval(EvalAll(ev.nodes, w))
      rs == [n \in 1..Len(ev.eqs) |-> ev.eqs[n][1]]
      want == Expected(ev.name)
  IN  { <<ev.name, "missing", r>> : r \in want \ Range(rs) }
      \cup { <<ev.name, "unexpected", r>> : r \in Range(rs) \ want }
      \cup { <<ev.name, "duplicate", rs[n]>> : n \in { m \in 1..Len(rs) : \E q \in 1..(m-1) : rs[q] = rs[m] } }
      \cup (IF ev.ordered /\ \E n \in 1..Len(rs) : n <= NF /\ Len(rs[n]) >= 2 /\ rs[n][2] # n
            THEN { <<ev.name, "order", rs>> } ELSE {})
      \cup { <<ev.name, IF Len(vs[ev.eqs[n][3]]) = 0 THEN "undefined" ELSE "value", rs[n]>> :
             n \in { m \in 1..Len(ev.eqs) : ~SameAt(vs[ev.eqs[m][2]], vs[ev.eqs[m][3]]) } }
      \cup LeakBad(ev, [n \in 1..Len(ev.eqs) |-> <<ev.eqs[n][1], ev.eqs[n][3]>>])
      \cup ImplicitBad(ev, [n \in 1..Len(ev.eqs) |-> <<ev.eqs[n][1], ev.eqs[n][3]>>])
      \cup ForeignBad(ev, [n \in 1..Len(ev.eqs) |-> <<ev.eqs[n][1], ev.eqs[n][3]>>])

IdentityBad(ev) ==
  LET vs == TLCEval(EvalAll(ev.nodes, MainWorld)) IN
  { <<ev.name, "identity", ev.pairs[n][1]>> :
      n \in { m \in 1..Len(ev.pairs) : ~SameAt(vs[ev.pairs[m][2]], vs[ev.pairs[m][3]]) } }
  \cup { <<ev.name, "missing", x>> : x \in Range(ev.want) \ Range(ev.have) }
  \cup { <<ev.name, "unexpected", x>> : x \in Range(ev.have) \ Range(ev.want) }

\* closed formulation: the unclosed metric formulation with the closed
\* expectations given their supplied values, after the change of variables
ClosedBad(ev) ==
  LET vs0 == TLCEval(EvalAll(ev.nodes, MainWorld))
      ovr == [k \in { ev.ovr[n][1] : n \in 1..Len(ev.ovr) } |->
                vs0[(CHOOSE p \in Range(ev.ovr) : p[1] = k)[2]]]
      w   == [MainWorld EXCEPT !.ovr = ovr]
      vs  == TLCEval(EvalAll(ev.nodes, w))
      base(r) == vs[(CHOOSE p \in Range(ev.base) : p[1] = r)[2]]
      hasBase(r) == \E p \in Range(ev.base) : p[1] = r
      gt(i,a,b) == base(<<"g", i, IF a <= b THEN a ELSE b, IF a <= b THEN b ELSE a>>)
      sgs(i,a,b) == FoldLeft(LAMBDA acc, cd : VAdd(acc,
                      VMul(MainWorld.asp[i][a][cd[1]], VMul(gt(i,cd[1],cd[2]), MainWorld.asp[i][cd[2]][b]))),
                      VZero, SetToSeq(Dims \X Dims))
      expected(r) == IF r[1] = "s" THEN VNeg(sgs(r[2], r[3], r[4]))
                     ELSE IF r[1] = "nu" THEN VNeg(VScal(Rat(1,2), sgs(r[2], r[3], r[4])))
                     ELSE base(r)
      rs == [n \in 1..Len(ev.eqs) |-> ev.eqs[n][1]]
      want == Expected(ev.name)
  IN  { <<ev.name, "missing", r>> : r \in want \ Range(rs) }
      \cup { <<ev.name, "unexpected", r>> : r \in Range(rs) \ want }
      \cup { <<ev.name, "closed-value", rs[n]>> :
             n \in { m \in 1..Len(ev.eqs) : rs[m] \in want
                        /\ ~SameAt(expected(rs[m]), vs[ev.eqs[m][2]]) } }
      \cup LeakBad(ev, ev.eqs)
      \cup ImplicitBad(ev, ev.eqs)
      \cup ForeignBad(ev, ev.eqs)
      \* a closed term is replaced everywhere, not left in place
      \cup { <<ev.name, "closed-term-left", rs[n]>> :
              n \in { m \in 1..Len(ev.eqs) : \E i \in Reach(ev.nodes, {ev.eqs[m][2]}) :
                       ev.nodes[i][1] = "E" /\ ev.nodes[i][3] \in DOMAIN ovr } }

\* ---- substitution tree ---------------------------------------------------
\* every unordered pair {alpha, beta} of multi-indices of orders >= 1 with
\* |alpha| + |beta| <= degree has an entry, and only those
MultiIdx(n) == { a \in [Dims -> 0..n] : SumSeq([q \in Dims |-> a[q]]) <= n /\ \E q \in Dims : a[q] > 0 }
Ord(a) == SumSeq(a)
TreePairs(deg) == { {ab[1], ab[2]} : ab \in { p \in MultiIdx(deg) \X MultiIdx(deg) : Ord(p[1]) + Ord(p[2]) <= deg } }
\* expectation nodes must have the form E[eps * D^gamma eps] (or E[eps^2], E[eps])
IsEps(nodes, i) == nodes[i][1] = "fun" /\ nodes[i][2] \in DOMAIN Case.funs /\ Case.funs[nodes[i][2]][1] = "eps"
IsDEps(nodes, i) == nodes[i][1] = "D" /\ IsEps(nodes, nodes[i][2])
FormOK(nodes, i) ==
  LET c == nodes[nodes[i][2]] IN
    \/ IsEps(nodes, nodes[i][2])
    \/ c[1] = "pow" /\ IsEps(nodes, c[2])
    \/ /\ c[1] = "mul" /\ Len(c[2]) = 2
       /\ \E p, q \in {1, 2} : p # q /\ IsEps(nodes, c[2][p]) /\ IsDEps(nodes, c[2][q])
TreeBad(ev) ==
  LET vs == TLCEval(EvalAll(ev.nodes, MainWorld))
      have == { { ev.pairs[n][1][1], ev.pairs[n][1][2] } : n \in 1..Len(ev.pairs) }
      want == TreePairs(ev.degree)
      reach == FoldLeft(LAMBDA acc, n : acc \cup {ev.pairs[n][3]}, {}, [n \in 1..Len(ev.pairs) |-> n])
      \* nodes used by the right-hand sides, from the last to the first
      used == FoldLeft(LAMBDA acc, n :
                LET i == Len(ev.nodes) + 1 - n IN
                IF i \in acc THEN acc \cup Range(Children(ev.nodes[i])) ELSE acc,
                reach, [n \in 1..Len(ev.nodes) |-> n])
  IN  { <<ev.name, "identity", ev.pairs[n][1]>> :
          n \in { m \in 1..Len(ev.pairs) : ~SameAt(vs[ev.pairs[m][2]], vs[ev.pairs[m][3]]) } }
      \cup { <<ev.name, "missing", SetToSeq(x)>> : x \in want \ have }
      \cup { <<ev.name, "unexpected", SetToSeq(x)>> : x \in have \ want }
      \cup { <<ev.name, "form", ev.nodes[i][3]>> : i \in { j \in used : ev.nodes[j][1] = "E" /\ ~FormOK(ev.nodes, j) } }

\* ---- unclosed terms ------------------------------------------------------
\* reported = the expectations of the delivered dynamics, and the dynamics
\* really depends on each of them
\* errors that a term is the expectation of: <<field, order of derivation>> per
\* factor, or <<>> for another form
Factors(nodes, i) ==
  LET one(j) == IF IsEps(nodes, j) THEN << <<Case.funs[nodes[j][2]][2], 0>> >>
                ELSE IF IsDEps(nodes, j)
                     THEN << <<Case.funs[nodes[nodes[j][2]][2]][2], SumSeq([q \in 1..Len(nodes[j][3]) |-> nodes[j][3][q][2]])>> >>
                     ELSE <<>>
      two(j) == IF nodes[j][1] = "pow" /\ nodes[j][3] = 2 /\ nodes[j][4] = 1 THEN one(nodes[j][2]) \o one(nodes[j][2]) ELSE one(j)
      c == nodes[i]
  IN  IF c[1] = "mul" THEN FoldLeft(LAMBDA acc, q : acc \o two(q), <<>>, c[2]) ELSE two(i)
\* the parameters (variances, covariances, metrics) determine the mean of an
\* error and of its derivatives, the products of two errors, and the products
\* of derivatives of one error up to the total order 3; of the other products
\* of one error the terms E[eps D^c eps] are enough
Determined(fs) ==
  \/ Len(fs) = 1
  \/ Len(fs) = 2 /\ fs[1][2] = 0 /\ fs[2][2] = 0
  \/ Len(fs) = 2 /\ fs[1][1] = fs[2][1] /\ fs[1][2] + fs[2][2] <= 3
  \/ Len(fs) = 2 /\ fs[1][1] = fs[2][1] /\ fs[1][2] > 0 /\ fs[2][2] > 0
UnclosedBad(ev) ==
  LET keys == { ev.nodes[i][3] : i \in { j \in 1..Len(ev.nodes) : ev.nodes[j][1] = "E" } }
      rep  == Range(ev.reported)
      rnd(k, salt) == <<RJet(9000 + salt + (CHOOSE n \in 1..Len(ev.reported) : ev.reported[n] = k), SpaceVars, TRUE)>>
      known == rep \cap keys
      wA == [MainWorld EXCEPT !.ovr = [k \in known |-> rnd(k, 0)]]
      pts(w) == LET vs == EvalAll(ev.nodes, w) IN TLCEval([n \in 1..Len(ev.eqs) |-> Pt(vs[ev.eqs[n][2]])])
      A == TLCEval(pts(wA))
      errs == { i \in 1..Len(ev.nodes) : ev.nodes[i][1] = "fun" /\ ev.nodes[i][2] \in DOMAIN Case.funs /\ Case.funs[ev.nodes[i][2]][1] \in {"err", "random"} }
  IN  { <<ev.name, "unreported", k>> : k \in keys \ rep }
      \cup (IF errs = {} THEN {} ELSE
            { <<ev.name, "not-of-normalised-errors", ev.nodes[i][3]>> :
              i \in { j \in 1..Len(ev.nodes) : ev.nodes[j][1] = "E" /\ Reach(ev.nodes, {j}) \cap errs # {} } })
      \cup { <<ev.name, "determined-by-the-parameters", ev.nodes[i][3]>> :
              i \in { j \in 1..Len(ev.nodes) : ev.nodes[j][1] = "E" /\ Determined(Factors(ev.nodes, ev.nodes[j][2])) } }
      \cup { <<ev.name, "reported-but-absent", k>> : k \in rep \ keys }
      \cup { <<ev.name, "no-dependence", k>> : k \in
              { q \in known : pts([MainWorld EXCEPT !.ovr = [wA.ovr EXCEPT ![q] = rnd(q, 400)]]) = A } }
      \cup { <<ev.name, "expected-unclosed", k>> : k \in (IF ev.hasexpect THEN Range(ev.expect) \ rep ELSE {}) }
      \cup { <<ev.name, "already-closed", k>> : k \in (IF ev.hasexpect THEN rep \ Range(ev.expect) ELSE {}) }

NChk(ev) == IF ev.kind \in {"identity", "tree"} THEN Len(ev.pairs) ELSE Len(ev.eqs)
Bad(ev) == CASE ev.kind = "system" -> SystemBad(ev)
             [] ev.kind = "identity" -> IdentityBad(ev)
             [] ev.kind = "closed" -> ClosedBad(ev)
             [] ev.kind = "tree" -> TreeBad(ev)
             [] ev.kind = "unclosed" -> UnclosedBad(ev)
             [] OTHER -> { <<"trace", "unknown-event", ev.kind>> }

\* self-check of the realisation: the sampled world satisfies the axioms of
\* the probabilistic setting (not of the implementation)
WorldOK ==
  \A i \in FieldIds :
    /\ Mean(Eps0[i]) = VZero
    /\ Mean(VMul(Eps0[i], Eps0[i])) = VOne
    /\ Mean(VMul(Err0[i], Err0[i])) = VMul(Sigma0[i], Sigma0[i])
    /\ Defined => Mean(c1[i]) = VZero

Init == l = 1 /\ bad = {} /\ nchk = 0
Step == /\ Defined
        /\ l <= Len(Case.events)
        /\ bad' = bad \cup Bad(Case.events[l])
        /\ nchk' = nchk + NChk(Case.events[l])
        /\ l' = l + 1
Next == Step
Spec == Init /\ [][Next]_vars
Report ==
  \/ l <= Len(Case.events) /\ Defined
  \/ JsonSerialize(IOEnv.OUT, [defined |-> Defined, nchk |-> nchk, steps |-> l - 1,
                               worldok |-> (Defined => WorldOK),
                               bad |-> SetToSeq(bad)])
=============================================================================
