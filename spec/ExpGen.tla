------------------------------- MODULE ExpGen -------------------------------
(* Generator of expressions over random and deterministic fields: a stack  *)
(* machine whose behaviours (TLC simulation) write one expression each.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MAXOPS, MAXSTACK, WITHE, WITHP
VARIABLES stack, ops, target, done
vars == <<stack, ops, target, done>>
\* leaves are weighted by repetition
Leaves == {"X", "Y", "Z", "f", "g", "k", "x", "2", "R(1,3)", "W", "h"}
Init == stack = <<>> /\ ops = 0 /\ done = FALSE /\ \E n \in 2..MAXOPS : target = n
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
Top(n) == stack[Len(stack) - n]
\* the hole is filled by concatenation: operators are given as <<before, after>>
Uns == { <<"D(", ",x)">>, <<"D(", ",t)">>, <<"D(", ",y)">>, <<"D(", ",x,y)">>, <<"D(", ",x,x)">>, <<"D(", ",t,x)">>,
         <<"I(", ",x)">>, <<"I(", ",t)">>, <<"I(", ",x,y)">>, <<"ID(", ",x,0,1)">>,
         <<"(", ")**2">>, <<"(", ")**3">>, <<"(", ")**(-1)">>, <<"-(", ")">>, <<"(", ")**R(1,2)">>, <<"F(", ")">>, <<"F(", ")">>, <<"exp(", ")">> }
       \cup (IF WITHP THEN { <<"2**(", ")">>, <<"f**(", ")">>, <<"k**(", ")">>, <<"(", ")**X">>, <<"(", ")**k">>, <<"sin(", ")">>, <<"log(", ")">> } ELSE {})
       \cup (IF WITHE THEN { <<"E(", ")">>, <<"E(2*", ")">>, <<"IL(", ",x,0,X)">>, <<"IL(", ",y,k,f)">>, <<"IL(2*f,x,0,", ")">> } ELSE {})
Push == /\ ~done /\ Len(stack) < MAXSTACK /\ ops < target
        /\ \E s \in Leaves : stack' = Append(stack, s)
        /\ ops' = ops + 1 /\ UNCHANGED <<target, done>>
Unary == /\ ~done /\ Len(stack) > 0 /\ ops < target
         /\ \E u \in Uns : stack' = Append(Pop(1), u[1] \o Top(0) \o u[2])
         /\ ops' = ops + 1 /\ UNCHANGED <<target, done>>
Binary == /\ ~done /\ Len(stack) > 1
          /\ \E b \in {"+", "*", "-", "*", "/"} : stack' = Append(Pop(2), "(" \o Top(1) \o ")" \o b \o "(" \o Top(0) \o ")")
          /\ UNCHANGED <<ops, target, done>>
Apply2 == /\ ~done /\ Len(stack) > 1 /\ ops < target
          /\ stack' = Append(Pop(2), "H(" \o Top(1) \o "," \o Top(0) \o ")")
          /\ ops' = ops + 1 /\ UNCHANGED <<target, done>>
Emit == /\ ~done /\ Len(stack) = 1 /\ ops >= target
        /\ PrintT("EXP " \o ToJson([e |-> stack[1]]))
        /\ done' = TRUE /\ UNCHANGED <<stack, ops, target>>
Idle == done /\ UNCHANGED vars
Spec == Init /\ [][Push \/ Unary \/ Binary \/ Apply2 \/ Emit \/ Idle]_vars
=============================================================================
