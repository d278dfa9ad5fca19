------------------------------ MODULE ModelTrace ------------------------------
(* Conformance of a recorded session: the only hidden state is the scheme  *)
(* each model currently uses; every call must return what ModelSem says    *)
(* for that scheme and leave inputs and model untouched.                   *)
EXTENDS ModelSem, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
Unit == Rat(Case.unit[1], Case.unit[2])
Dt(k) == (Mod(k) * Unit) % P
Tm(k) == (Dt(k) + Case.unit[3]) % P       \* instants count from the origin of the session
VARIABLES l, bad, nchk, sch
vars == <<l, bad, nchk, sch>>

Mdl(ev) == Case.models[ev.o]
State(s, u) == IF s = "leapfrog" THEN u ELSE <<u[1]>>
Times(ws) == [k \in 1..Len(ws) |-> Tm(ws[k])]
\* indices of the window that are requested
Wanted(ev) == SelectSeq([k \in 1..Len(ev.win) |-> k],
                        LAMBDA k : ev.saved.kind = "all" \/ \E q \in 1..Len(ev.saved.ts) : ev.saved.ts[q] = ev.win[k])
Traj(s, ev, st) == LET all == TLCEval(Run(s, Mdl(ev), Times(ev.win), st))
                       w == Wanted(ev)
                   IN  [i \in 1..Len(w) |-> <<ev.win[w[i]], all[w[i]]>>]
B(what, ev) == { <<what, Mdl(ev).class, sch[ev.o], ev.op>> }
If(c, what, ev) == IF c THEN {} ELSE B(what, ev)
Pure(ev) == If(ev.pure, "inputs-altered", ev)

StepBad(ev) == LET s == sch[ev.o] IN
  If(ev.out = Step1(s, Mdl(ev), Tm(ev.win[1]), State(s, ev.u), Dt(ev.dt)), "step", ev) \cup Pure(ev)
FcBad(ev) == LET s == sch[ev.o] IN If(ev.out = Traj(s, ev, State(s, ev.u)), "trajectory", ev) \cup Pure(ev)
PrBad(ev) == LET s == sch[ev.o]
                 t == Traj(s, ev, State(s, ev.u))
             IN  If(ev.out = [i \in 1..Len(t) |-> t[i][2]], "prediction", ev) \cup Pure(ev)
\* forecast cut in two at every inner time: same states
Fc2Bad(ev) == LET s == sch[ev.o]
                  all == TLCEval(Run(s, Mdl(ev), Times(ev.win), State(s, ev.u)))
              IN  If(ev.out = [i \in 1..Len(ev.win) |-> <<ev.win[i], all[i]>>], "consecutive-windows", ev)
                  \cup Pure(ev)
\* per saved time, the list of the members' states in the order of the members
EnsWant(s, ev, sts) == LET ts == [m \in 1..Len(sts) |-> TLCEval(Traj(s, ev, sts[m]))]
                       IN  [i \in 1..Len(Wanted(ev)) |-> <<ev.win[Wanted(ev)[i]], [m \in 1..Len(sts) |-> ts[m][i][2]]>>]
EnsBad(ev) == LET s == sch[ev.o] IN
  If(ev.out = EnsWant(s, ev, [m \in 1..Len(ev.us) |-> State(s, ev.us[m])]), "ensemble", ev) \cup Pure(ev)
TlBad(ev) == LET s == sch[ev.o]
                 h == Rat(ev.h[1], ev.h[2])
                 ih == Inv(h)
                 ref == TLCEval(Traj(s, ev, <<ev.u[1]>>))
                 per == EnsWant(s, ev, [m \in 1..Len(ev.us) |-> <<VAdd(ev.u[1], VScl(h, ev.us[m][1]))>>])
                 want == [i \in 1..Len(per) |-> <<per[i][1], [m \in 1..Len(ev.us) |-> <<VScl(ih, VSub(per[i][2][m][1], ref[i][2][1]))>>]>>]
             IN  If(ev.ref = ref, "tl-reference", ev) \cup If(ev.out = want, "tl-quotient", ev) \cup Pure(ev)
\* propagator: M x is the forecast of x at the end of the window, for every x
MatBad(ev) == LET s == sch[ev.o]
                  n == Mdl(ev).n
                  fin(x) == LET a == Run(s, Mdl(ev), Times(ev.win), <<x>>) IN a[Len(a)][1]
                  mv(x) == [i \in 1..n |-> FoldLeft(LAMBDA acc, j : (acc + ev.out[i][j] * x[j]) % P, 0, [j \in 1..n |-> j])]
              IN  If(\A x \in { [k \in 1..n |-> IF k = q THEN 1 ELSE 0] : q \in 1..n } \cup {ev.u[1]} : mv(x) = fin(x), "propagator", ev)
\* a built window: from start to end included, by the time step
WinBad(ev) == If(ev.out = [k \in 1..(ev.steps + 1) |-> ev.start + (k - 1) * ev.dt], "window", ev)
\* a random state: the last one of the spin-up from the state drawn
RandBad(ev) == LET a == Run(sch[ev.o], Mdl(ev), [k \in 1..ev.steps |-> Dt((k - 1) * ev.dt)], <<ev.u[1]>>)
               IN  If(ev.out = a[Len(a)], "spin-up", ev) \cup Pure(ev)
SetBad(ev) == If(ev.ok = (ev.name \in SchemeNames), "scheme-selection", ev)
Bad(ev) == CASE ev.op = "step" -> StepBad(ev)
             [] ev.op = "fc" -> FcBad(ev)
             [] ev.op = "fc2" -> Fc2Bad(ev)
             [] ev.op = "pr" -> PrBad(ev)
             [] ev.op = "ens" -> EnsBad(ev)
             [] ev.op = "tl" -> TlBad(ev)
             [] ev.op = "mat" -> MatBad(ev)
             [] ev.op = "win" -> WinBad(ev)
             [] ev.op = "rand" -> RandBad(ev)
             [] ev.op = "set" -> SetBad(ev)
             [] OTHER -> { <<"unknown-event", ev.op, "", "">> }
Init == /\ l = 1 /\ bad = {} /\ nchk = 0
        /\ sch = [o \in 1..Len(Case.models) |-> IF Case.models[o].scheme = "default" THEN "rk4" ELSE Case.models[o].scheme]
Step == /\ l <= Len(Case.events)
        /\ LET ev == Case.events[l] IN
             /\ bad' = bad \cup Bad(ev)
             /\ sch' = IF ev.op = "set" /\ ev.name \in SchemeNames THEN [sch EXCEPT ![ev.o] = ev.name] ELSE sch
        /\ nchk' = nchk + 1 /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == \/ l <= Len(Case.events)
          \/ JsonSerialize(IOEnv.OUT, [nchk |-> nchk, bad |-> SetToSeq(bad)])
=============================================================================
