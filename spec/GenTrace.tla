------------------------------- MODULE GenTrace -------------------------------
(* Conformance of a session with the models generated from a system of      *)
(* equations (finite differences, mode "fd", or a manifold, mode "space").  *)
(*                                                                         *)
(* State: for each instance its grid, the values given so far to constants *)
(* and constant functions (0 = not set) and its time scheme.  Every call   *)
(* must return what the equations say for this state; nothing else may     *)
(* change it.                                                              *)
EXTENDS Lattice, Names, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk, inst
vars == <<l, bad, nchk, inst>>
S == Case.sys
None == [on |-> FALSE, g |-> <<1>>, h |-> <<1>>, vals |-> [n \in {} |-> 0], sch |-> "rk4"]
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }

\* ---- the equations on the grid of an instance -----------------------------
Tab(t, n) == SubSeq(t, 1, n)
Rt(q) == Rat(q[1], q[2])
Env(o, t, st) ==
  LET n == NPts(o.g)
      cst == [s \in DOMAIN S.consts |-> IF o.vals[s] = 0 THEN <<>> ELSE <<Mod(Case.cv[s][o.vals[s]])>>]
      cf  == [s \in DOMAIN S.cfuns |-> IF o.vals[s] = 0 THEN <<>> ELSE Tab(Case.fv[s][o.vals[s]], n)]
      ex  == [s \in DOMAIN S.exog |->
               IF S.exog[s] = "time" THEN <<(Mod(Case.ev[s][1][1]) + t * Mod(Case.ev[s][2][1])) % P>>
               ELSE LAdd(LAdd(Tab(Case.ev[s][1], n), LScl(t, Tab(Case.ev[s][2], n))), st[1])]
      pr  == [s \in Range(S.fields) |-> st[CHOOSE q \in 1..Len(S.fields) : S.fields[q] = s]]
  IN  TLCEval([g |-> o.g, h |-> o.h, mode |-> Case.mode, syms |-> cst, funs |-> pr @@ cf @@ ex])
Trend(o, t, st) ==
  LET vs == TLCEval(EvalLat(S.nodes, Env(o, t, st)))
  IN  TLCEval([q \in 1..Len(S.roots) |-> IF Len(vs[S.roots[q]]) = 0 THEN <<>> ELSE Expand(vs[S.roots[q]], NPts(o.g))])
SAxpy(a, b, c) == TLCEval([q \in 1..Len(a) |-> LAdd(a[q], LScl(c, b[q]))])      \* a + c b
StepOf(o, t, st, dt) ==
  LET half == (dt * Rat(1, 2)) % P IN
  CASE o.sch = "euler" -> SAxpy(st, Trend(o, t, st), dt)
    [] o.sch = "rk2"   -> LET m == SAxpy(st, Trend(o, t, st), half) IN SAxpy(st, Trend(o, (t + half) % P, m), dt)
    [] OTHER -> LET k1 == Trend(o, t, st)
                    k2 == Trend(o, (t + half) % P, SAxpy(st, k1, half))
                    k3 == Trend(o, (t + half) % P, SAxpy(st, k2, half))
                    k4 == Trend(o, (t + dt) % P, SAxpy(st, k3, dt))
                    s  == SAxpy(SAxpy(SAxpy(k1, k2, 2), k3, 2), k4, 1)
                IN  SAxpy(st, s, (dt * Rat(1, 6)) % P)
Defined(v) == \A q \in 1..Len(v) : Len(v[q]) > 0
St(o, k) == [q \in 1..Len(S.fields) |-> Tab(Case.sv[k][q], NPts(o.g))]
Same(got, want) == Len(got) = Len(want) /\ \A q \in 1..Len(want) : got[q] = want[q]
\* a result: the state handed over is unchanged, each slot holds its own field
ResBad(ev, o, want) ==
  IF ~Defined(want) THEN {}
  ELSE IF ev.undef THEN { <<"no-value", ev.text>> }
  ELSE LET w == [q \in 1..Len(want) |-> Expand(want[q], NPts(o.g))] IN
       If(Same(ev.out, w), ev.op \o "-value", ev) \cup If(Same(ev.after, St(o, ev.st)), "state-modified", ev)

\* ---- declarations ---------------------------------------------------------
Decl(names) == [q \in 1..Len(names) |-> Valid(names[q])]
ClassBad(ev) ==
  If(ev.prog = Decl(S.texts.prog), "prognostic-declared", ev)
  \cup If(ev.coords = Decl(S.texts.coords), "coordinates-declared", ev)
  \cup If(Range(ev.consts) = Range(Decl(S.texts.consts)) /\ Len(ev.consts) = Len(S.texts.consts), "constants-declared", ev)
  \cup If(Range(ev.cfuns) = Range(Decl(S.texts.cfuns)) /\ Len(ev.cfuns) = Len(S.texts.cfuns), "constant-functions-declared", ev)
  \cup If(Range(ev.exog) = Range(Decl(S.texts.exog)) /\ Len(ev.exog) = Len(S.texts.exog), "exogenous-declared", ev)
  \cup If(ev.ident, "not-an-identifier", ev) \cup If(ev.samecode, "code-changed", ev) \cup If(ev.name, "class-name", ev)

\* ---- instances ------------------------------------------------------------
Params == DOMAIN S.consts \cup DOMAIN S.cfuns
NewInst(ev) == [on |-> TRUE, g |-> ev.shape,
                h |-> [k \in 1..Len(ev.shape) |-> Rat(ev.len[k][1], ev.len[k][2] * ev.shape[k])],
                vals |-> [s \in Params |-> IF s \in DOMAIN ev.given THEN ev.given[s] ELSE 0], sch |-> ev.scheme]
Value(s, v, n) == IF s \in DOMAIN S.consts THEN <<Mod(Case.cv[s][v])>> ELSE Tab(Case.fv[s][v], n)
HeldBad(ev, o, held) ==       \* values found on the instance
  UNION { If(IF o.vals[s] = 0 THEN held[s].kind = "nan" ELSE held[s].kind = "value" /\ held[s].v = Value(s, o.vals[s], NPts(o.g)), "value-of-" \o s, ev) : s \in Params }
NewBad(ev) ==
  LET o == TLCEval(NewInst(ev)) n == NPts(o.g) d == Len(o.g) IN
  (IF Case.mode = "fd" THEN
     If(ev.shapeOut = ev.shape, "shape", ev)
     \cup If(ev.lenOut = [k \in 1..d |-> Rt(ev.len[k])], "lengths", ev)
     \cup If(ev.dxOut = o.h, "step", ev)
     \cup If(ev.xOut = [k \in 1..d |-> [i \in 1..o.g[k] |-> ((i - 1) * o.h[k]) % P]], "coordinate-values", ev)
     \cup If(ev.XShape = [k \in 1..d |-> o.g], "coordinate-array-shape", ev)
     \cup If(ev.XOut = [k \in 1..d |-> [p \in 1..n |-> (CoordOf(o.g, p, k) * o.h[k]) % P]], "coordinate-array", ev)
   ELSE If(ev.space, "base-space", ev))
  \cup If(ToSet(ev.warned) = { S.idents[s] : s \in { q \in Params : o.vals[q] = 0 } }, "warnings", ev)
  \cup HeldBad(ev, o, ev.held)
IndexBad(ev, o) == If(ev.out = [i \in 1..o.g[ev.k] |-> ((i - 1) + ev.step) % o.g[ev.k]], "index", ev)
\* wrong dimension <=> rejected
RejectBad(ev) == If(ev.raised = (ev.dim # Len(S.texts.coords) \/ ev.dim2 # Len(S.texts.coords)), "dimension-check", ev)

Bad(ev) ==
  CASE ev.op = "class"  -> ClassBad(ev)
    [] ev.op = "new"    -> NewBad(ev)
    [] ev.op = "set"    -> {}
    [] ev.op = "trend"  -> ResBad(ev, inst[ev.i], Trend(inst[ev.i], Rt(ev.t), St(inst[ev.i], ev.st)))
    [] ev.op = "step"   -> ResBad(ev, inst[ev.i], StepOf(inst[ev.i], Rt(ev.t), St(inst[ev.i], ev.st), Rt(ev.dt)))
    [] ev.op = "index"  -> IndexBad(ev, inst[ev.i])
    [] ev.op = "held"   -> HeldBad(ev, inst[ev.i], ev.held)
    [] ev.op = "reject" -> RejectBad(ev)
    [] OTHER -> { <<"unknown-event", ev.op>> }
Init == l = 1 /\ bad = {} /\ nchk = 0 /\ inst = <<None, None>>
Step == /\ l <= Len(Case.events)
        /\ LET ev == Case.events[l] IN
           /\ bad' = bad \cup TLCEval(Bad(ev))
           /\ inst' = CASE ev.op = "new" -> [inst EXCEPT ![ev.i] = NewInst(ev)]
                        [] ev.op = "set" -> [inst EXCEPT ![ev.i].vals[ev.s] = ev.v]
                        [] OTHER -> inst
        /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
