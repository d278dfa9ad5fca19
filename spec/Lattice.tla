------------------------------- MODULE Lattice -------------------------------
(* Fields on a periodic lattice over GF(P) and the meaning of expressions   *)
(* on it.  A grid is the sequence of its sizes; points are numbered in row  *)
(* order; a value is <<s>> (the same everywhere), or one number per point,  *)
(* or <<>> (undefined).                                                     *)
EXTENDS GF
NPts(g) == FoldLeft(LAMBDA a, n : a * n, 1, g)
Stride(g, k) == FoldLeft(LAMBDA a, q : IF q > k THEN a * g[q] ELSE a, 1, [q \in 1..Len(g) |-> q])
CoordOf(g, p, k) == ((p - 1) \div Stride(g, k)) % g[k]
ShiftPt(g, p, k, s) == LET c == CoordOf(g, p, k) IN p + (((c + s) % g[k]) - c) * Stride(g, k)
AtP(v, p) == IF Len(v) = 1 THEN v[1] ELSE v[p]
LMap1(Op(_), a) == TLCEval([p \in 1..Len(a) |-> Op(a[p])])
LMap2(Op(_, _), a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE TLCEval([p \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> Op(AtP(a, p), AtP(b, p))])
LAdd(a, b) == LMap2(LAMBDA x, y : (x + y) % P, a, b)
LMul(a, b) == LMap2(LAMBDA x, y : (x * y) % P, a, b)
LScl(c, a) == LMap1(LAMBDA x : (c * x) % P, a)
\* value of the field at the points moved by s steps along coordinate k
Shift(g, a, k, s) == IF Len(a) <= 1 THEN a ELSE TLCEval([p \in 1..Len(a) |-> a[ShiftPt(g, p, k, s)]])
ShiftAll(g, a, sh) == FoldLeft(LAMBDA v, k : IF sh[k] = 0 THEN v ELSE Shift(g, v, k, sh[k]), a, [k \in 1..Len(sh) |-> k])

\* ---- centred stencils ----------------------------------------------------
Fact(n) == FoldLeft(LAMBDA a, i : a * i, 1, [i \in 1..n |-> i])
Binom(n, j) == Fact(n) \div (Fact(j) * Fact(n - j))
\* <<offset, integer coefficient>>; to be divided by Spacing(n, h)^n
Stencil(n) == [j \in 1..(n + 1) |->
  << IF n % 2 = 0 THEN (n \div 2) - (j - 1) ELSE n - 2 * (j - 1), (IF (j - 1) % 2 = 0 THEN 1 ELSE -1) * Binom(n, j - 1) >>]
Spacing(n, h) == IF n % 2 = 0 THEN h ELSE (2 * h) % P
CDiff(g, h, a, k, n) ==
  IF Len(a) = 0 THEN a ELSE
  LET st == Stencil(n)
      ih == PowM(Inv(Spacing(n, h[k])), n)
  IN  IF Len(a) = 1 THEN <<0>>
      ELSE TLCEval([p \in 1..Len(a) |-> (ih * FoldLeft(LAMBDA s, w : (s + Mod(w[2]) * a[ShiftPt(g, p, k, w[1])]) % P, 0, st)) % P])
\* an arbitrary linear differentiation: a different operator for each multi-index
HashDiff(a, alpha) ==
  IF Len(a) <= 1 THEN <<0>> ELSE
  LET code == FoldLeft(LAMBDA s, n : s * 7 + n, 1, alpha)
      N == Len(a)
  IN  TLCEval([p \in 1..N |-> FoldLeft(LAMBDA s, q : (s + Rnd(code, q) * a[((p - 1 + q) % N) + 1]) % P, 0, <<0, 1, 2>>)])

\* ---- rational powers and unspecified functions ----------------------------
PowL(a, n, d) ==
  IF d = 1 /\ n >= 0 THEN LMap1(LAMBDA x : PowM(x, n), a)
  ELSE IF d = 1 THEN (IF \E p \in 1..Len(a) : a[p] = 0 THEN <<>> ELSE LMap1(LAMBDA x : PowM(Inv(x), 0 - n), a))
  ELSE IF \E p \in 1..Len(a) : ~IsQR(a[p]) THEN <<>> ELSE LMap1(LAMBDA x : RootPow(x, n, d), a)
\* (odd: sin tanh tan sinh; even: cos cosh abs; the parity is used by sympy)
UFunV(code, x) == LET y == Mod(0 - x) IN
  CASE code \in {1, 4, 5, 7} -> (Rnd(code, x) - Rnd(code, y)) % P
    [] code \in {2, 8, 9}    -> (Rnd(code, x) + Rnd(code, y)) % P
    [] OTHER -> Rnd(code, x)
UFun(code, a) == LMap1(LAMBDA x : UFunV(code, x), a)

\* env: g grid, h steps, funs, syms, mode ("fd" or "space")
EvalL(nd, vals, env) ==
  LET op == nd[1] IN
  CASE op = "int" -> <<Mod(nd[2])>>
    [] op = "rat" -> <<Rat(nd[2], nd[3])>>
    [] op = "sym" -> IF nd[2] \in DOMAIN env.syms THEN env.syms[nd[2]] ELSE <<>>
    [] op = "fun" -> IF nd[2] \in DOMAIN env.funs THEN ShiftAll(env.g, env.funs[nd[2]], nd[3]) ELSE <<>>
    [] op = "add" -> FoldLeft(LAMBDA acc, i : LAdd(acc, vals[i]), <<0>>, nd[2])
    [] op = "mul" -> FoldLeft(LAMBDA acc, i : LMul(acc, vals[i]), <<1>>, nd[2])
    [] op = "pow" -> PowL(vals[nd[2]], nd[3], nd[4])
    [] op = "app" -> UFun(nd[3], vals[nd[2]])
    [] op = "D"   -> IF env.mode = "fd"
                     THEN FoldLeft(LAMBDA acc, kn : IF kn[2] = 0 THEN acc ELSE CDiff(env.g, env.h, acc, kn[1], kn[2]),
                                   vals[nd[2]], [k \in 1..Len(nd[3]) |-> <<k, nd[3][k]>>])
                     ELSE HashDiff(vals[nd[2]], nd[3])
    [] OTHER -> <<>>
EvalLat(nodes, env) ==
  FoldLeft(LAMBDA vals, nd : Append(vals, TLCEval(EvalL(nd, vals, env))), <<>>, nodes)
Expand(v, n) == IF Len(v) = 1 THEN [p \in 1..n |-> v[1]] ELSE v
=============================================================================
