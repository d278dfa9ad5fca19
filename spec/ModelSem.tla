------------------------------- MODULE ModelSem -------------------------------
(* Meaning of the time integration.                                        *)
(*                                                                         *)
(* A state is a sequence of vectors over GF(P): one vector for one-step    *)
(* schemes, two consecutive ones for the leapfrog.  A trend is a sequence  *)
(* of components, each a sequence of monomials <<c, a, p>> standing for    *)
(* c * t^a * u_1^p_1 * .. * u_n^p_n.  A splitting is a sequence of         *)
(* sub-steps: a trend with its own scheme, or an exact update (t, u, dt).  *)
(***************************************************************************)
EXTENDS GF, Functions

VAdd(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % P]
VSub(a, b) == [i \in 1..Len(a) |-> (a[i] - b[i]) % P]
VScl(c, a) == [i \in 1..Len(a) |-> (c * a[i]) % P]
Half == Inv(2)
Sixth == Inv(6)

Pw(b, e) == CASE e = 0 -> 1 [] e = 1 -> b [] e = 2 -> (b * b) % P [] OTHER -> PowM(b, e)
Mono(m, t, u) == FoldLeft(LAMBDA acc, j : (acc * Pw(u[j], m[3][j])) % P,
                          (Mod(m[1]) * Pw(t, m[2])) % P, [j \in 1..Len(u) |-> j])
F(tr, t, u) == [i \in 1..Len(u) |-> FoldLeft(LAMBDA acc, m : (acc + Mono(m, t, u)) % P, 0, tr[i])]

Euler(tr, t, u, dt) == VAdd(u, VScl(dt, F(tr, t, u)))
Midpoint(tr, t, u, dt) ==
  LET mid == VAdd(u, VScl((dt * Half) % P, F(tr, t, u)))
  IN  VAdd(u, VScl(dt, F(tr, (t + dt * Half) % P, mid)))
RK4(tr, t, u, dt) ==
  LET h  == (dt * Half) % P
      k1 == F(tr, t, u)
      k2 == F(tr, (t + h) % P, VAdd(u, VScl(h, k1)))
      k3 == F(tr, (t + h) % P, VAdd(u, VScl(h, k2)))
      k4 == F(tr, (t + dt) % P, VAdd(u, VScl(dt, k3)))
  IN  VAdd(u, VScl((dt * Sixth) % P, VAdd(VAdd(k1, VScl(2, k2)), VAdd(VScl(2, k3), k4))))
Leapfrog(tr, t, u0, u1, dt) == VAdd(u0, VScl((2 * dt) % P, F(tr, t, u1)))

OneStep(s, tr, t, u, dt) == CASE s = "euler" -> Euler(tr, t, u, dt)
                              [] s = "rk2"   -> Midpoint(tr, t, u, dt)
                              [] s = "rk4"   -> RK4(tr, t, u, dt)
\* exact update of a sub-step: u + dt*A(t,u) + dt^2*B(t,u)
Update(sub, t, u, dt) == VAdd(u, VAdd(VScl(dt, F(sub.trend, t, u)),
                                      VScl((dt * dt) % P, F(sub.trend2, t, u))))
Split(subs, t, u, dt) ==
  FoldLeft(LAMBDA v, sub : IF sub.kind = "update" THEN Update(sub, t, v, dt)
                           ELSE OneStep(sub.scheme, sub.trend, t, v, dt), u, subs)
\* one step of scheme s from state st (sequence of vectors); mdl has the trend
Step1(s, mdl, t, st, dt) ==
  CASE s = "leapfrog"  -> <<st[2], Leapfrog(mdl.trend, t, st[1], st[2], dt)>>
    [] s = "splitting" -> <<Split(mdl.subs, t, st[1], dt)>>
    [] OTHER           -> <<OneStep(s, mdl.trend, t, st[1], dt)>>
\* the states at all times of a window
Run(s, mdl, ts, st0) ==
  FoldLeft(LAMBDA acc, k : Append(acc, TLCEval(Step1(s, mdl, ts[k], acc[k], (ts[k+1] - ts[k]) % P))),
           <<st0>>, [k \in 1..(Len(ts)-1) |-> k])
SchemeNames == {"euler", "rk2", "rk4", "leapfrog", "splitting"}
=============================================================================
