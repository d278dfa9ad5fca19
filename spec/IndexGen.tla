-------------------------------- MODULE IndexGen --------------------------------
(* Every notation of a derivative multi-index over N coordinates within the *)
(* bounds: tuples, single couples, lists of couples, sequences, and the     *)
(* malformed variants of each.                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MAXLEN, MAXORD
VARIABLES nt
Tuples(n) == [1..n -> 0..MAXORD]
SeqsUpTo(S, m) == UNION { [1..q -> S] : q \in 0..m }
Couples == { <<i, a>> : i \in 1..N, a \in 0..MAXORD }
CoupleLists == SeqsUpTo(Couples, IF N * (MAXORD+1) > 6 THEN 2 ELSE 3) \ {<<>>}
Bad == { [form |-> "tuple", v |-> s, mal |-> "length"] : s \in Tuples(N+1) \cup (IF N = 1 THEN {} ELSE Tuples(N-1)) }
       \cup { [form |-> "tuple", v |-> s, mal |-> m] : s \in Tuples(N), m \in {"float", "str", "none", "listtuple"} }
       \cup { [form |-> "sequence", v |-> s, mal |-> "foreign"] : s \in SeqsUpTo(1..N, 2) }
       \cup { [form |-> "couples", v |-> s, mal |-> m] : s \in SeqsUpTo(Couples, 2) \ {<<>>}, m \in {"foreign", "float", "triple"} }
       \cup { [form |-> "couple", v |-> <<s>>, mal |-> m] : s \in Couples, m \in {"foreign", "float", "triple"} }
Good == { [form |-> "tuple", v |-> s, mal |-> "no"] : s \in Tuples(N) }
        \cup { [form |-> "sequence", v |-> s, mal |-> "no"] : s \in SeqsUpTo(1..N, MAXLEN) }
        \cup { [form |-> "seqtuple", v |-> s, mal |-> "no"] : s \in SeqsUpTo(1..N, 3) \ {<<>>} }
        \cup { [form |-> "couples", v |-> s, mal |-> "no"] : s \in CoupleLists }
        \cup { [form |-> "couple", v |-> <<s>>, mal |-> "no"] : s \in Couples }
Init == nt \in Good \cup Bad /\ PrintT("HIST " \o ToJson(nt))
Next == UNCHANGED nt
Spec == Init /\ [][Next]_nt
=============================================================================
