-------------------------------- MODULE FDSym --------------------------------
(* Conformance of symbolic finite differences.  Each event gives the        *)
(* original expression (its derivatives evaluated) and what the code        *)
(* returned.  Both are evaluated on a periodic lattice filled with random   *)
(* numbers, where a derivative means the tensor product of centred          *)
(* stencils (Lattice.tla) and a shifted function its value at the shifted   *)
(* point; they must agree at every point.                                   *)
EXTENDS Lattice, Json, IOUtils
Case == JsonDeserialize(IOEnv.CASE)
VARIABLES l, bad, nchk
vars == <<l, bad, nchk>>
G == Case.g
N == NPts(G)
\* a function varies with its own arguments only
FunTab(r) == TLCEval([p \in 1..N |->
  LET key == FoldLeft(LAMBDA s, k : IF k \in Range(r[2]) THEN s * G[k] + CoordOf(G, p, k) ELSE s, 0, [k \in 1..Len(G) |-> k])
      v == RndNZ(Case.seed + 311 * r[1], key) IN (v * v) % P])
H == TLCEval([k \in 1..Len(G) |-> RndNZ(Case.seed + 17, k)])
Env == TLCEval([g |-> G, h |-> H, mode |-> "fd",
         funs |-> [s \in DOMAIN Case.funs |-> FunTab(Case.funs[s])],
         syms |-> [s \in DOMAIN Case.syms |->
            LET r == Case.syms[s] IN
            CASE r[1] = "step"  -> <<H[r[2]]>>
              [] r[1] = "coord" -> FunTab(<<900 + r[2], <<r[2]>> >>)
              [] OTHER -> LET v == RndNZ(Case.seed + 5, r[2]) IN <<(v * v) % P>>]])
If(c, what, ev) == IF c THEN {} ELSE { <<what, ev.text>> }
SameL(a, b) == Len(a) = 0 \/ Len(b) = 0 \/ Expand(a, N) = Expand(b, N)
Children(nd) == CASE nd[1] \in {"add", "mul"} -> Range(nd[2]) [] nd[1] \in {"pow", "app", "D"} -> {nd[2]} [] OTHER -> {}
Reach(nodes, r) == FoldLeft(LAMBDA acc, n : LET i == Len(nodes) + 1 - n IN
                        IF i \in acc THEN acc \cup Children(nodes[i]) ELSE acc, {r}, [n \in 1..Len(nodes) |-> n])
Bad(ev) ==
  LET vs == TLCEval(EvalLat(ev.nodes, Env))
      got == Reach(ev.nodes, ev.got)
  IN  If(SameL(vs[ev.got], vs[ev.want]), "wrong-value", ev)
      \cup If(\A i \in got : ev.nodes[i][1] # "D", "derivative-left", ev)
      \cup If(\A i \in got : ev.nodes[i][1] # "off", "point-off-the-grid", ev)
      \cup If(ev.lhs[1] = ev.lhs[2], "left-side-changed", ev)
      \cup If(ev.same, "operand-changed", ev)
Init == l = 1 /\ bad = {} /\ nchk = 0
Next == l <= Len(Case.events) /\ l' = l + 1 /\ bad' = bad \cup Bad(Case.events[l]) /\ nchk' = nchk + 4
Spec == Init /\ [][Next]_vars
Done == l > Len(Case.events)
Report == Done => JsonSerialize(IOEnv.OUT, [bad |-> SetToSeq(bad), nchk |-> nchk])
=============================================================================
