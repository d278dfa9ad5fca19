------------------------------ MODULE CorrLife ------------------------------
(* Histories of requests to closure objects.                               *)
(*                                                                         *)
(* A closure memoises, per order, its Taylor expansion and its terms; the  *)
(* dictionaries it hands out belong to the caller, who may change them.    *)
(* Whatever the history (orders up or down, expansions, terms and their    *)
(* metric form interleaved, several closures alive), the answer to a       *)
(* request is the ideal one of that request alone.  The memoising design   *)
(* is checked exhaustively (MODE "check"); histories are drawn from it by  *)
(* simulation (MODE "gen") and replayed into the implementation.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NOBJ, MAXORD, MAXLEN, COPY, MODE
VARIABLES memo, out, hist
vars == <<memo, out, hist>>
Objs == 1..NOBJ
Kinds == <<"taylor", "closure", "by_order", "in_metric", "corr">>
Ideal(o, k, n) == [obj |-> o, kind |-> k, ord |-> n, altered |-> FALSE]
Fresh == [n \in 0..MAXORD |-> "none"]
Init == memo = [o \in Objs |-> [taylor |-> Fresh, terms |-> Fresh]] /\ out = <<>> /\ hist = <<>>
\* the expansion needed for the terms of order n is that of order n+1
Fill(m, tab, n) == IF m[tab][n] = "none" THEN [m EXCEPT ![tab][n] = "exact"] ELSE m
Ask(o, k, n) ==
  /\ Len(hist) < MAXLEN
  /\ LET ord == IF k = "in_metric" /\ n < 2 THEN 2 ELSE n
         m1 == IF k = "corr" THEN memo[o]
               ELSE IF k = "taylor" THEN Fill(memo[o], "taylor", n)
               ELSE Fill(memo[o], "terms", ord)
         val == IF k = "corr" THEN "exact" ELSE IF k = "taylor" THEN m1.taylor[n] ELSE m1.terms[ord]
     IN  /\ memo' = [memo EXCEPT ![o] = m1]
         /\ out' = [Ideal(o, k, n) EXCEPT !.altered = (val # "exact")]
  /\ hist' = Append(hist, <<o, k, n>>)
\* the caller changes the dictionaries it received last
Alter == /\ out # <<>> /\ Len(hist) > 0 /\ Len(hist) < MAXLEN /\ hist[Len(hist)][2] # "alter"
         /\ out.kind \in {"closure", "by_order", "in_metric"}
         /\ memo' = IF COPY THEN memo
                    ELSE [memo EXCEPT ![out.obj].terms[IF out.kind = "in_metric" /\ out.ord < 2 THEN 2 ELSE out.ord] = "altered"]
         /\ out' = out
         /\ hist' = Append(hist, <<out.obj, "alter", 0>>)
Draw == LET o == RandomElement(Objs) IN
        LET k == Kinds[RandomElement(1..Len(Kinds))] IN
        LET n == RandomElement(0..MAXORD) IN Ask(o, k, n)
Emit == MODE = "gen" /\ Len(hist) = MAXLEN /\ PrintT("CORR " \o ToJson(hist)) /\ hist' = Append(hist, <<0, "end", 0>>) /\ UNCHANGED <<memo, out>>
Next == IF MODE = "gen" THEN (Draw \/ Draw \/ Draw \/ Alter \/ Emit)
        ELSE (Alter \/ \E o \in Objs, k \in {"taylor", "by_order", "in_metric"}, n \in 0..MAXORD : Ask(o, k, n))
Spec == Init /\ [][Next]_vars
AnswerExact == out # <<>> => out.altered = FALSE
=============================================================================
