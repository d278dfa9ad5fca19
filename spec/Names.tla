-------------------------------- MODULE Names --------------------------------
(* Identifiers from names written for LaTeX (sequences of characters).      *)
EXTENDS Integers, Sequences, SequencesExt
Clean(s) == FoldLeft(LAMBDA acc, c : CASE c \in {"\\", "{", "}"} -> acc
                                       [] c \in {"^", ","} -> Append(acc, "_")
                                       [] OTHER -> Append(acc, c), <<>>, s)
\* keywords of Python among the generated names: an underscore is added
Keywords == { <<"l", "a", "m", "b", "d", "a">>, <<"i", "n">> }
Valid(s) == IF Clean(s) \in Keywords THEN Append(Clean(s), "_") ELSE Clean(s)
=============================================================================
