-------------------------------- MODULE GF --------------------------------
(* Arithmetic of the prime field GF(P).                                    *)
(*                                                                         *)
(* Every exact quantity of the specification (field values, derivatives,   *)
(* constants, time steps) lives in GF(P).  An identity between rational    *)
(* expressions holds in GF(P) whenever it holds over the rationals, and a  *)
(* false identity fails at a random point except with probability of the   *)
(* order of degree/P: TLC decides identities without 32-bit overflow       *)
(* (P*P < 2^31) and without any rounding.                                  *)
(*                                                                         *)
(* P is a safe prime (P = 2Q+1, Q prime).  The quadratic residues form a   *)
(* group of odd prime order Q: every residue has exactly one n-th root     *)
(* among the residues, for every n that is not a multiple of Q.  "Positive *)
(* real" is modelled by "quadratic residue": sqrt(a*b) = sqrt(a)*sqrt(b),  *)
(* sqrt(a^2) = a, (a^(1/4))^2 = sqrt(a) all hold, as over positive reals.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

P == 46199
Q == 23099

Mod(n) == n % P                       \* n may be negative: TLA+ % is >= 0

\* b^e by repeated squaring over the 16 bits of e (no RECURSIVE: constants
\* defined through this operator are then evaluated once by TLC)
Bits(e) == [i \in 1..17 |-> (e \div (2^(17-i))) % 2]
PowM(b, e) ==
  FoldLeft(LAMBDA acc, bit : IF bit = 1 THEN (((acc*acc) % P) * b) % P
                                        ELSE (acc*acc) % P, 1, Bits(e))
Inv(a)    == PowM(a, P-2)             \* a # 0
IsQR(a)   == a # 0 /\ PowM(a, Q) = 1
MulM(a,b) == (a*b) % P

\* inverse of d modulo Q (Q prime)
InvQ(d) == FoldLeft(LAMBDA acc, bit : IF bit = 1 THEN (((acc*acc) % Q) * (d % Q)) % Q
                                        ELSE (acc*acc) % Q, 1, Bits(Q-2))
\* principal power a^(n/d) of a residue
RootPow(a, n, d) == PowM(a, (((n % Q) * InvQ(d)) % Q))

\* rationals n/d as elements of GF(P) (P does not divide d)
Rat(n, d) == (Mod(n) * Inv(Mod(d))) % P

\* deterministic pseudo-random elements
Rnd(s, i) ==
  LET a == ((((s % P) * 31337) % P) + (((i % P) * 7919) % P) + 12345) % P
      b == (((((a * a) % P) * a) % P) + (((i % P) * 613) % P) + 7) % P
      c == (((b * b) % P) * b + (s % P) * 17 + 3) % P
      d == (((c * c) % P) * c + 29) % P
  IN  d
RndNZ(s, i) == LET r == Rnd(s, i) IN IF r = 0 THEN 5 ELSE r
RndQR(s, i) == LET r == RndNZ(s, i) IN (r * r) % P
=============================================================================
