-------------------------------- MODULE NameGen --------------------------------
(* Generator of LaTeX-style names (exhaustive): base, then sub/superscripts. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MAXPARTS
VARIABLES name, parts
Bases == { <<"u">>, <<"\\", "l", "a", "m", "b", "d", "a">>, <<"i", "n">>, <<"\\", "n", "u">>, <<"{", "\\", "k", "a", "}">>, <<"V", "1">>, <<"\\", "v", "a", "r", "e", "p", "s", "{", "x", "}">> }
Subs == { <<"_", "x">>, <<"^", "u">>, <<"_", "{", "x", "y", "}">>, <<"_", "{", "x", ",", "y", "}">>, <<"^", "{", "\\", "a", "l", "p", "h", "a", "}">>,
          <<"^", "{", "u", ",", "1", "}">>, <<"_", "1">>, <<",", "x">>, <<"{", "}">>, <<"_", "{", "\\", "m", "u", "_", "{", "0", "}", "}">> }
Init == name \in Bases /\ parts = 0
Next == parts < MAXPARTS /\ \E s \in Subs : name' = name \o s /\ parts' = parts + 1
Spec == Init /\ [][Next]_<<name, parts>>
Emit == PrintT("HIST " \o ToJson(name))
=============================================================================
