------------------------------- MODULE PKFLife -------------------------------
(* Life of parametric-dynamics objects: memoised systems, closures supplied *)
(* at construction and later, eviction of the algebra library's caches, two *)
(* objects in the same process.                                             *)
(*                                                                          *)
(* Every object holds a memo per system; a memo carries the object and the  *)
(* version of the closure with which it was computed (systems that do not   *)
(* depend on the closure always carry version 0).  The guarantee Fresh is   *)
(* that nothing computed before a closure was added, for another object or  *)
(* for an earlier object of the same equations, is delivered; Isolated that *)
(* an action on one object leaves the other alone.  DESIGN tells defective  *)
(* designs apart (Fresh is not vacuous): in "stale" a closure does not      *)
(* invalidate the memos, in "shared" a new object takes over the memos that *)
(* another object has.                                                      *)
(* In simulation the last action prints the history of the session.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS OBJ, RAW, CLOSED, TERMS, MAXLEN, DESIGN, EMIT
SysNames == RAW \cup CLOSED
VARIABLES ver, memo, hist, delivered
vars == <<ver, memo, hist, delivered>>
Empty == <<>>
Init == /\ ver = [o \in OBJ |-> <<o, 0, 0>>]                   \* object, incarnation, closures
        /\ memo = [o \in OBJ |-> [s \in SysNames |-> Empty]]
        /\ hist = <<>> /\ delivered = <<>>
Vers(o, s) == IF s \in RAW THEN <<ver[o][1], 0, 0>> ELSE ver[o]
\* a closed system is computed from the metric system, itself from raw ones
Deps(s) == IF s \in RAW THEN {} ELSE RAW
Log(a) == hist' = Append(hist, a)
Get(o, s) ==
  LET m == memo[o]
      got == IF m[s] = Empty THEN Vers(o, s) ELSE m[s]
  IN /\ memo' = [memo EXCEPT ![o] = [q \in SysNames |->
                   IF q = s THEN got ELSE IF q \in Deps(s) /\ m[q] = Empty THEN Vers(o, q) ELSE m[q]]]
     /\ delivered' = <<o, s, got>>
     /\ Log(<<"get", o, s>>) /\ UNCHANGED ver
SetClosure(o, k) ==
  /\ ver[o][3] < 3
  /\ ver' = [ver EXCEPT ![o][3] = @ + 1]
  /\ memo' = IF DESIGN # "stale" THEN [memo EXCEPT ![o] = [s \in SysNames |-> IF s \in CLOSED THEN Empty ELSE @[s]]]
             ELSE memo
  /\ delivered' = <<>>
  /\ Log(<<"set", o, k>>)
\* another object of the same equations takes the place of o; k < 0: no closure
New(o, k) ==
  /\ ver[o][2] < 2
  /\ ver' = [ver EXCEPT ![o] = <<o, @[2] + 1, 0>>]
  /\ memo' = [memo EXCEPT ![o] = [s \in SysNames |->
                 IF DESIGN = "shared" /\ (\E q \in OBJ : memo[q][s] # Empty)
                 THEN memo[CHOOSE q \in OBJ : memo[q][s] # Empty][s] ELSE Empty]]
  /\ delivered' = <<>>
  /\ Log(<<"new", o, k>>)
\* the caches of the algebra library may lose anything at any time
Evict == Log(<<"evict">>) /\ delivered' = <<>> /\ UNCHANGED <<ver, memo>>
Emit == /\ Len(hist) = MAXLEN /\ EMIT /\ PrintT("LIFE " \o ToJson(hist))
        /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<ver, memo, delivered>>
Next == \/ /\ Len(hist) < MAXLEN
           /\ \/ \E o \in OBJ, s \in SysNames : Get(o, s)
              \/ \E o \in OBJ, k \in TERMS : SetClosure(o, k) \/ New(o, k - 1)
              \/ Evict
        \/ Emit
Spec == Init /\ [][Next]_vars
Fresh == delivered # <<>> => delivered[3] = Vers(delivered[1], delivered[2])
MemoFresh == \A o \in OBJ, s \in SysNames : memo[o][s] \in {Empty, Vers(o, s)}
Isolated == [][\A o \in OBJ : (ver'[o] # ver[o] \/ memo'[o] # memo[o]) =>
                 (Len(hist') > 0 /\ Len(Last(hist')) > 1 /\ Last(hist')[2] = o)]_vars
View == <<ver, memo, delivered, Len(hist)>>
=============================================================================
