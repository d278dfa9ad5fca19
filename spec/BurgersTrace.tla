---------------------------- MODULE BurgersTrace ----------------------------
(* The Burgers reference model as a state machine: the state is the mean u, *)
(* the variance V and the aspect s of the error on a periodic grid; the     *)
(* viscosity is set (and may be changed) between the calls; several models  *)
(* live at the same time.  Dynamics closed by                               *)
(*        E[eps D^4 eps] = 3 g^2 - 2 D^2 g,   g = 1/s :                      *)
(*  u_t = kappa u_xx - u u_x - V_x/2                                        *)
(*  V_t = kappa V_xx - u V_x - 2 V u_x - 2 kappa V/s - kappa V_x^2/(2V)     *)
(*  s_t = 2 s u_x - u s_x + 2 kappa s^2 E - 3 kappa s_xx - 2 kappa          *)
(*        + 6 kappa s_x^2/s - 2 kappa s V_xx/V + kappa V_x s_x/V            *)
(*        + 2 kappa s V_x^2/V^2                                             *)
(* every derivative being the centred second-order one of the grid.         *)
EXTENDS Lattice, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk, inst
vars == <<l, bad, nchk, inst>>
Rt(q) == Rat(q[1], q[2])
Inv1(a) == PowL(a, -1, 1)
Sm(seq) == FoldLeft(LAMBDA x, y : LAdd(x, y), <<0>>, seq)

Pr(seq) == FoldLeft(LAMBDA x, y : LMul(x, y), <<1>>, seq)
Trend(o, st) ==
  LET u == st[1] V == st[2] s == st[3]
      d(f, n) == CDiff(<<o.n>>, <<Inv(Mod(o.n))>>, f, 1, n)
      k == o.kappa
      iV == Inv1(V) is == Inv1(s)
      ux == d(u, 1) Vx == d(V, 1) Vxx == d(V, 2) sx == d(s, 1) sxx == d(s, 2)
      \* g = 1/s : g_xx = 2 s_x^2/s^3 - s_xx/s^2
      gxx == Sm(<<LScl(2, Pr(<<sx, sx, is, is, is>>)), LScl(P - 1, Pr(<<sxx, is, is>>))>>)
      E == Sm(<<LScl(3, Pr(<<is, is>>)), LScl(P - 2, gxx)>>)
      m(c) == (Mod(c) * k) % P
  IN TLCEval(<<
     Sm(<<LScl(k, d(u, 2)), LScl(P - 1, Pr(<<u, ux>>)), LScl(Rat(-1, 2), Vx)>>),
     Sm(<<LScl(k, Vxx), LScl(P - 1, Pr(<<u, Vx>>)), LScl(P - 2, Pr(<<V, ux>>)), LScl(m(-2), Pr(<<V, is>>)),
          LScl((k * Rat(-1, 2)) % P, Pr(<<Vx, Vx, iV>>))>>),
     Sm(<<LScl(2, Pr(<<s, ux>>)), LScl(P - 1, Pr(<<u, sx>>)), LScl(m(2), Pr(<<s, s, E>>)), LScl(m(-3), sxx), <<m(-2)>>,
          LScl(m(6), Pr(<<sx, sx, is>>)), LScl(m(-2), Pr(<<s, Vxx, iV>>)), LScl(k, Pr(<<Vx, sx, iV>>)),
          LScl(m(2), Pr(<<s, Vx, Vx, iV, iV>>))>>) >>)
Axpy(a, b, c) == TLCEval([q \in 1..Len(a) |-> LAdd(a[q], LScl(c, b[q]))])
StepOf(o, st, dt) ==
  LET half == (dt * Rat(1, 2)) % P
      k1 == Trend(o, st)
      k2 == Trend(o, Axpy(st, k1, half))
      k3 == Trend(o, Axpy(st, k2, half))
      k4 == Trend(o, Axpy(st, k3, dt))
  IN Axpy(st, Axpy(Axpy(Axpy(k1, k2, 2), k3, 2), k4, 1), (dt * Rat(1, 6)) % P)
St(n, k) == [q \in 1..3 |-> SubSeq(Case.sv[k][q], 1, n)]
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
Defd(v) == \A q \in 1..3 : Len(v[q]) > 0
ResBad(ev, o, want) ==
  IF ~Defd(want) THEN {}
  ELSE If(ev.out = want, ev.op, ev) \cup If(ev.after = St(o.n, ev.st), "state-modified", ev)
Bad(ev) ==
  CASE ev.op = "new"   -> If(ev.shape = <<ev.n>> /\ ev.dx = Inv(Mod(ev.n)) /\ ev.nprog = 3, "model", ev)
    [] ev.op = "set"   -> {}
    [] ev.op = "trend" -> ResBad(ev, inst[ev.i], Trend(inst[ev.i], St(inst[ev.i].n, ev.st)))
    [] ev.op = "step"  -> ResBad(ev, inst[ev.i], StepOf(inst[ev.i], St(inst[ev.i].n, ev.st), Rt(ev.dt)))
    [] OTHER -> { <<"unknown-event", ev.op>> }
Init == l = 1 /\ bad = {} /\ nchk = 0 /\ inst = [i \in 1..3 |-> [n |-> 1, kappa |-> 1]]
Step == /\ l <= Len(Case.events)
        /\ LET ev == Case.events[l] IN
           /\ bad' = bad \cup TLCEval(Bad(ev))
           /\ inst' = CASE ev.op = "new" -> [inst EXCEPT ![ev.i].n = ev.n]
                        [] ev.op = "set" -> [inst EXCEPT ![ev.i].kappa = Mod(ev.v)]
                        [] OTHER -> inst
        /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
