----------------------------- MODULE Answers -----------------------------
(***************************************************************************)
(* What a run may print as answers to a question.  A case is a set of       *)
(* function-free clauses in which the question is a set of clauses with     *)
(* answer literals (predicate $ans, occurring positively only), and runs of *)
(* the real prover on it.  A run prints a list of answers: clauses of       *)
(* answer literals ("false" as the empty clause), at most as many as were   *)
(* asked for.                                                               *)
(*   kind "epr"    entailment is decided by EprSat                          *)
(*   kind "model"  the clauses hold in the finite interpretation I, in      *)
(*                 which $ans is interpreted as the tuples that satisfy the *)
(*                 question                                                 *)
(* The search is modelled as the process that takes up one answer after     *)
(* the other: a state is the set of answers printed so far.                 *)
(***************************************************************************)
EXTENDS Fol, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, r, k
C == Cases[i]
Run == C.runs[r]
Ans == Run.answers
Init == i \in 1..Len(Cases) /\ r \in 1..Len(C.runs) /\ k = 0
Next == k < Len(Ans) /\ k' = k + 1 /\ UNCHANGED <<i, r>>
IsAns(c) == \A j \in DOMAIN c : c[j][1] = 1 /\ c[j][2] = "$ans" /\ Len(c[j][3]) = C.arity
Holds(c) == IF C.kind = "epr" THEN EprEntails(C.cls, c, C.consts, C.pid)
            ELSE InSig(c, C.I) /\ IClause(c, C.I)
CaseOk == (k = 0 /\ C.kind = "model") => \A j \in DOMAIN C.cls : InSig(C.cls[j], C.I) /\ IClause(C.cls[j], C.I)
(* every answer consists of answer literals of the question and follows from the input *)
Shape == k > 0 => IsAns(Ans[k])
Entailed == k > 0 => Holds(Ans[k])
(* the proof printed with an answer ends with it *)
Same == k > 0 => Run.wellformed /\ Run.last[k] = Ans[k]
(* no more answers than asked for, no ground answer twice *)
Bounded == k <= Run.max
Distinct == k > 0 => \A j \in 1..(k-1) : Ans[j] = Ans[k] => CVars(Ans[k]) # {}
(* a proof is reported iff something is printed as proved *)
Reported == k = 0 => (Run.verdict = "proof" <=> Len(Ans) > 0)
(* Horn clauses have a least model: a search that runs dry below the limit has printed, up to instances, all *)
(* the tuples of constants in it -- or the contradiction                                                     *)
Tuples == {t \in [1..C.arity -> Range(C.consts)] : TRUE}
Lit(t) == <<<<1, "$ans", [j \in 1..C.arity |-> <<1, t[j], <<>>>>]>>>>
Full == Run.verdict = "finished" \/ Len(Ans) < Run.max
All == (k = Len(Ans) /\ C.kind = "epr" /\ C.horn /\ Run.complete /\ Run.ended /\ Full) =>
   \A t \in Tuples : (\E j \in DOMAIN Ans : Subsumes(Ans[j], Lit(t))) \/ ~EprEntails(C.cls, Lit(t), C.consts, C.pid)
=============================================================================
