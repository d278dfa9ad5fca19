-------------------------------- MODULE World --------------------------------
(* A random world: values for the functions, constants and coordinates of  *)
(* a recorded case (shared by the trace specifications on expressions).    *)
EXTENDS Sem, Json, IOUtils, SequencesExt
Case == JsonDeserialize(IOEnv.CASE)
Seed == Case.seed
RJet(salt, vars) ==
  TLCEval([k \in 1..NC |->
    IF \E q \in 1..(NV+1) : Exps[k][q] > 0 /\ q \notin vars THEN 0
    ELSE IF k = C0 THEN RndQR(Seed + salt, 977) ELSE Rnd(Seed + salt, k)])
Base == TLCEval([v \in 1..(NV+1) |-> RndNZ(Seed + 5000, v)])     \* base point of the jets
FunVal(r) == IF r[1] = "rand" THEN [q \in 1..K |-> RJet(100*r[2] + q, Range(r[3]))]
             ELSE <<RJet(7000 + r[2], Range(r[3]))>>
SymVal(r) == CASE r[1] = "coord" -> <<JAdd(JConst(Base[r[2]]), JVar(r[2]))>>
               [] r[1] = "const" -> <<JConst(RndQR(Seed + 6000, r[2]))>>
               [] OTHER -> Undef
World == TLCEval([syms |-> [s \in DOMAIN Case.syms |-> SymVal(Case.syms[s])],
                  funs |-> TLCEval([s \in DOMAIN Case.funs |-> FunVal(Case.funs[s])]),
                  base |-> Base,
                  ovr  |-> [k \in {} |-> 0]])
FunVars(k)   == IF k \in DOMAIN Case.funargs THEN Range(Case.funargs[k]) ELSE {}
VarName(v)   == CHOOSE s \in DOMAIN Case.syms : Case.syms[s] = <<"coord", v>>
\* nodes on which the nodes of a set depend
Reach(nodes, roots) ==
  FoldLeft(LAMBDA acc, n : LET i == Len(nodes) + 1 - n IN
             IF i \in acc THEN acc \cup Range(Children(nodes[i])) ELSE acc,
           roots, [n \in 1..Len(nodes) |-> n])
=============================================================================
