------------------------------- MODULE Proof -------------------------------
(***************************************************************************)
(* A printed proof, read as a behaviour: the proof lines are the states of  *)
(* a derivation that starts with input clauses and ends in a contradiction  *)
(* or an answer clause.  Case fields: input (clauses with roles and names), *)
(* steps [num, rule, prem (line numbers), role, name, cl], goal ("false" or *)
(* "answer"), answer (literals).                                            *)
(***************************************************************************)
EXTENDS Calculus, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k
Init == i \in 1..Len(Cases) /\ k = 0
C == Cases[i]
S == C.steps
Next == k < Len(S) /\ k' = k + 1 /\ UNCHANGED i

Lines == [n \in 1..Len(S) |-> S[n].num]
LineAt(n) == CHOOSE j \in 1..Len(S) : S[j].num = n
Variant(c, d) == /\ Len(c) = Len(d) /\ Subsumes(c, d) /\ Subsumes(d, c)
SameSet(c, d) == Subsumes(c, d) /\ Subsumes(d, c) /\ Len(Dedup(c)) = Len(Dedup(d))

(* premises are earlier lines of the same proof *)
Cited == k > 0 => \A j \in DOMAIN S[k].prem :
            \E m \in 1..(k-1) : S[m].num = S[k].prem[j]
NumbersIncrease == k > 1 => S[k].num > S[k-1].num
(* a leaf is one of the input clauses, under its name and role *)
IsLeaf(s) == s.rule = "in"
LeafOk == (k > 0 /\ IsLeaf(S[k])) =>
   /\ S[k].prem = <<>>
   /\ \E m \in DOMAIN C.input : /\ SameSet(Dedup(C.input[m].cl), Dedup(S[k].cl))
                                /\ C.input[m].role = S[k].role
                                /\ (C.input[m].name = "" \/ S[k].name = "" \/ C.input[m].name = S[k].name)
(* any other line follows from the lines it cites *)
Prem(s) == [j \in DOMAIN s.prem |-> S[LineAt(s.prem[j])].cl]
StepOk == (k > 0 /\ ~IsLeaf(S[k])) =>
   /\ S[k].prem # <<>>
   /\ (Cited => Follows(S[k].rule, Prem(S[k]), S[k].pos, S[k].cl))
(* the role recorded for a derived line says goal (assumption) only if a goal (a goal or assumption) clause was used *)
RECURSIVE GoalAncestor(_)
GoalAncestor(j) == IF IsLeaf(S[j]) THEN S[j].role = "goal"
                   ELSE \E m \in DOMAIN S[j].prem : GoalAncestor(LineAt(S[j].prem[m]))
RECURSIVE NonAxiomAncestor(_)
NonAxiomAncestor(j) == IF IsLeaf(S[j]) THEN S[j].role \notin {"axiom", "extaxiom"}
                   ELSE \E m \in DOMAIN S[j].prem : NonAxiomAncestor(LineAt(S[j].prem[m]))
RoleOk == (k > 0 /\ ~IsLeaf(S[k]) /\ Cited) =>
   /\ S[k].role \in {"fromgoal", "fromga"} => GoalAncestor(k)
   /\ S[k].role = "fromassumption" => NonAxiomAncestor(k)
(* the last line is the contradiction, or consists of answer literals, the printed answer *)
EndOk == (k = Len(S)) =>
   /\ Len(S) > 0
   /\ IF C.goal = "false" THEN S[k].cl = <<>>
      ELSE /\ S[k].cl # <<>>
           /\ \A j \in DOMAIN S[k].cl : IsAns(S[k].cl[j]) /\ S[k].cl[j][1] = 1
           /\ Variant(C.answer, S[k].cl)
=============================================================================
