---------------------------- MODULE Refutation ----------------------------
(***************************************************************************)
(* What a run of the prover may report about a clause set.  A case is a     *)
(* clause set and the runs of the real prover on it, each with the verdict  *)
(* it printed:                                                              *)
(*   "proof"    a refutation was reported                                   *)
(*   "finished" the search ended because nothing was left to derive, well   *)
(*              before its time limit (near it, clauses are given up)       *)
(*   others     no claim                                                    *)
(* The satisfiability of the clause set is decided here:                    *)
(*   kind "epr"     by EprSat (no proper function symbols)                  *)
(*   kind "lifted"  the clauses generalise ground clauses (field ground)    *)
(*                  found unsatisfiable by GroundSat: clause lift[k]        *)
(*                  generalises ground[k]                                   *)
(*   kind "model"   the clauses hold in the finite interpretation I         *)
(* Every reported intermediate clause of a "model" case must hold in I.     *)
(***************************************************************************)
EXTENDS Calculus, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, sat
Init == i \in 1..Len(Cases) /\ sat = "?"
C == Cases[i]
Lifts(cls, ground, at) == /\ Len(at) = Len(ground)
                          /\ \A k \in DOMAIN ground : at[k] \in DOMAIN cls /\ Subsumes(cls[at[k]], ground[k])
AllNegative(c) == \A j \in DOMAIN c : c[j][1] = 0
FactsShape(cls) == \A k \in DOMAIN cls : AllNegative(cls[k]) \/ (Len(cls[k]) = 1 /\ cls[k][1][1] = 1 /\ ~IsEq(cls[k][1]))
FactsOf(cls) == {cls[k][1] : k \in {j \in DOMAIN cls : cls[j] # <<>> /\ cls[j][1][1] = 1}}
RECURSIVE Refuted(_, _, _, _, _)
Refuted(g, k, th, off, facts) ==
  IF k > Len(g) THEN TRUE
  ELSE IF IsEq(g[k]) THEN \E th2 \in Unify(<<<<g[k][3][1], g[k][3][2]>>>>, th) : Refuted(g, k+1, th2, off, facts)
  ELSE \E f \in facts : f[2] = g[k][2] /\ Len(f[3]) = Len(g[k][3]) /\
         LET f2 == CShift(<<f>>, off)[1] IN
         \E th2 \in Unify(Pairs(g[k][3], f2[3]), th) : Refuted(g, k+1, th2, off + 10, facts)
FactsUnsat(cls) == \E k \in DOMAIN cls : AllNegative(cls[k]) /\ Refuted(cls[k], 1, EmptySubst, 10, FactsOf(cls))
B(x) == IF x THEN "sat" ELSE "unsat"
Decide == /\ sat = "?"
          /\ sat' = CASE C.kind = "epr" -> B(EprSat(C.cls, C.consts, C.pid))
                      [] C.kind = "lifted" -> IF Lifts(C.cls, C.ground, C.lift) /\ ~GroundSat(C.ground) THEN "unsat" ELSE "unknown"
                      [] C.kind = "facts" -> IF FactsShape(C.cls) THEN B(~FactsUnsat(C.cls)) ELSE "unknown"
                      [] C.kind = "model" -> IF IAll(C.cls, C.I) THEN "sat" ELSE "unknown"
          /\ UNCHANGED i
Next == Decide
(* a reported refutation exists only for unsatisfiable clauses *)
Sound == sat = "sat" => \A k \in DOMAIN C.runs : C.runs[k].verdict # "proof"
(* a search with a complete strategy that runs dry has only satisfiable clauses *)
Complete == sat = "unsat" => \A k \in DOMAIN C.runs :
               ~(C.runs[k].complete > 0 /\ C.runs[k].verdict = "finished")
(* and on these small inputs the refutation is reached: complete = 2 marks runs with seconds of processor time *)
Finds == sat = "unsat" => \A k \in DOMAIN C.runs : C.runs[k].complete = 2 => C.runs[k].verdict \in {"proof", "resource"}
(* every clause the search worked with is a consequence of the input *)
Consequences == sat = "sat" /\ C.kind = "model" =>
   \A k \in DOMAIN C.derived : InSig(C.derived[k], C.I) /\ IClause(C.derived[k], C.I)
(* the cases themselves are what they claim to be (guards the generator, not the prover) *)
CaseOk == sat # "unknown"
=============================================================================
