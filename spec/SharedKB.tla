------------------------------ MODULE SharedKB ------------------------------
(***************************************************************************)
(* Knowledge bases kept in shared memory.  The system state is what every   *)
(* database number holds (nothing, or a set of clauses), what every dump    *)
(* file holds, and the visible memory images.  A case is a history of       *)
(* commands of separate processes run on the real program:                  *)
(*   read n s       -readkb: number n now holds the clauses s, whatever it  *)
(*                  held before                                             *)
(*   query n q      -usekb: a proof search from what n holds together with  *)
(*                  the clauses q                                           *)
(*   kill n         a query process ended by a signal at some point         *)
(*   delete n       -deletekb                                               *)
(*   write n f      -writekb: file f now holds what n holds                 *)
(*   load n f       -loadkb: n holds what file f holds; a number in use is  *)
(*                  left alone                                              *)
(*   readwrite n s f                                                        *)
(* Clause sets are sequences of indexes into C.cls.  Every command carries  *)
(* what was observed: res ("ok", "refused", or a verdict), and segs: for    *)
(* every number the identity of its memory image ("" absent, "?" not        *)
(* looked at), and for a query full: whether its strategy is a complete one. *)
(* Query processes only read: no image differs after them.                  *)
(***************************************************************************)
EXTENDS Refutation
VARIABLES step, kbs, files, segs
vars == <<i, sat, step, kbs, files, segs>>
Nums == 1..3
Absent == <<0>>
Ev == C.ev
KInit == /\ i \in 1..Len(Cases) /\ sat = "?" /\ step = 0
         /\ kbs = [n \in Nums |-> Absent] /\ files = [f \in 1..2 |-> Absent] /\ segs = [n \in Nums |-> ""]
(* the clauses of an index sequence *)
Clauses(s) == [j \in 1..Len(s) |-> C.cls[s[j]]]
(* what is known about a set of clauses of the case *)
Judge(s) == CASE C.kind = "epr" -> B(EprSat(Clauses(s), C.consts, C.pid))
              [] C.kind = "facts" -> IF FactsShape(Clauses(s)) THEN B(~FactsUnsat(Clauses(s))) ELSE "unknown"
              [] C.kind = "model" -> IF IAll(C.cls, C.I) THEN "sat" ELSE "unknown"
              [] C.kind = "lifted" -> IF DOMAIN C.cls # {s[j] : j \in 1..Len(s)} THEN "any"
                                      ELSE IF Lifts(C.cls, C.ground, C.lift) /\ ~GroundSat(C.ground) THEN "unsat" ELSE "unknown"
Here(n) == kbs[n] # Absent
KbsAfter(e) == CASE e.op \in {"read", "readwrite"} -> [kbs EXCEPT ![e.n] = e.s]
                 [] e.op = "delete" -> [kbs EXCEPT ![e.n] = Absent]
                 [] e.op = "load" -> IF ~Here(e.n) THEN [kbs EXCEPT ![e.n] = files[e.f]] ELSE kbs
                 [] OTHER -> kbs
FilesAfter(e) == CASE e.op = "readwrite" -> [files EXCEPT ![e.f] = e.s]
                   [] e.op = "write" -> IF Here(e.n) THEN [files EXCEPT ![e.f] = kbs[e.n]] ELSE files
                   [] OTHER -> files
KNext == /\ step < Len(Ev)
         /\ LET e == Ev[step+1] IN
            /\ step' = step + 1
            /\ kbs' = KbsAfter(e) /\ files' = FilesAfter(e)
            /\ segs' = [n \in Nums |-> IF e.segs[n] = "?" THEN segs[n] ELSE e.segs[n]]
            /\ sat' = IF e.op = "query" /\ Here(e.n) THEN Judge(kbs[e.n] \o e.s) ELSE "?"
         /\ UNCHANGED i
E == Ev[step]
After == step > 0
Query == After /\ E.op = "query"
(* commands succeed exactly when what they need is there *)
Refusals == (After /\ E.op \in {"read", "readwrite"}) => E.res = "ok"
QueryNeedsKb == Query => (E.res = "refused" <=> ~Here(E.n))
WriteNeedsKb == (After /\ E.op = "write") => (E.res = "ok" <=> Here(E.n))
LoadOk == [][(step' > step /\ Ev[step'].op = "load") =>
              LET e == Ev[step'] IN e.res = "ok" <=> (files[e.f] # Absent /\ ~Here(e.n))]_vars
(* a query is answered from what the number holds now, together with its own clauses *)
QuerySound == (Query /\ sat = "sat") => E.res # "proof"
QueryComplete == (Query /\ sat = "unsat" /\ E.full) => E.res \in {"proof", "resource"}
QueryEnds == Query => E.res \in {"proof", "finished", "none", "resource", "refused"}
(* the memory images: there is one exactly for the numbers in use *)
ImageIffPresent == After => \A n \in Nums : E.segs[n] # "?" => (E.segs[n] = "" <=> ~Here(n))
(* and only commands that build it change it *)
ImagesKept == [][\A n \in Nums : (segs'[n] # segs[n]) =>
                    (Ev[step'].op \in {"read", "readwrite", "delete", "load"} /\ Ev[step'].n = n)]_vars
KCaseOk == sat # "unknown"
=============================================================================
