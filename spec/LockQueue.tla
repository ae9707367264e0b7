----------------------------- MODULE LockQueue -----------------------------
(***************************************************************************)
(* The queued lock itself: a linked queue of requests under a mutex, each    *)
(* waiting on a futex word in its queue node; nodes are reused.  Waits end   *)
(* by a wakeup, by a timeout, or for no reason.  A section under the mutex   *)
(* is one step; setting the word of the successor and waking it are two.    *)
(* Checked: mutual exclusion, no lost wakeup, nodes are not lost, order.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS P, N,        \* threads; queue nodes
          Timeouts     \* whether waits may time out
VARIABLES pc, mode, node, wake, next, prev, class, waiting, tail, free, asleep, granted
vars == <<pc, mode, node, wake, next, prev, class, waiting, tail, free, asleep, granted>>
Nodes == 1..N
Init == /\ pc = [p \in P |-> "idle"] /\ mode = [p \in P |-> "r"] /\ node = [p \in P |-> 0] /\ wake = [p \in P |-> 0]
        /\ next = [n \in Nodes |-> 0] /\ prev = [n \in Nodes |-> 0] /\ class = [n \in Nodes |-> "r"]
        /\ waiting = [n \in Nodes |-> FALSE] /\ tail = 0 /\ free = Nodes /\ asleep = {} /\ granted = {}
(* take a free node, append it to the queue *)
Ask(p) ==
  /\ pc[p] = "idle" /\ free # {}
  /\ \E m \in {"r", "w"}, n \in free :
     /\ mode' = [mode EXCEPT ![p] = m] /\ node' = [node EXCEPT ![p] = n] /\ free' = free \ {n}
     /\ tail' = n /\ class' = [class EXCEPT ![n] = m]
     /\ prev' = [prev EXCEPT ![n] = tail]
     /\ next' = IF tail = 0 THEN [next EXCEPT ![n] = 0] ELSE [next EXCEPT ![n] = 0, ![tail] = n]
     /\ LET w == tail # 0 /\ ~(m = "r" /\ class[tail] = "r" /\ ~waiting[tail]) IN
        /\ waiting' = [waiting EXCEPT ![n] = w]
        /\ pc' = [pc EXCEPT ![p] = IF w THEN "wait" ELSE "held"]
        /\ granted' = IF w THEN granted ELSE granted \cup {p}
  /\ UNCHANGED <<wake, asleep>>
Sleep(p) == /\ pc[p] = "wait" /\ p \notin asleep
            /\ IF waiting[node[p]] THEN asleep' = asleep \cup {p} /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![p] = IF mode[p] = "r" THEN "pass" ELSE "held"] /\ UNCHANGED asleep
            /\ UNCHANGED <<mode, node, wake, next, prev, class, waiting, tail, free, granted>>
(* for no reason *)
Stir(p) == /\ p \in asleep /\ asleep' = asleep \ {p}
           /\ UNCHANGED <<pc, mode, node, wake, next, prev, class, waiting, tail, free, granted>>
Expire(p) == /\ Timeouts /\ p \in asleep /\ asleep' = asleep \ {p} /\ pc' = [pc EXCEPT ![p] = "expired"]
             /\ UNCHANGED <<mode, node, wake, next, prev, class, waiting, tail, free, granted>>
(* leave the queue, unless the lock has been granted meanwhile *)
GiveUp(p) ==
  LET n == node[p] IN
  /\ pc[p] = "expired"
  /\ IF waiting[n]
     THEN /\ next' = IF prev[n] # 0 THEN [next EXCEPT ![prev[n]] = next[n]] ELSE next
          /\ prev' = IF next[n] # 0 THEN [prev EXCEPT ![next[n]] = prev[n]] ELSE prev
          /\ tail' = IF next[n] = 0 /\ tail = n THEN prev[n] ELSE tail
          /\ free' = free \cup {n} /\ node' = [node EXCEPT ![p] = 0] /\ pc' = [pc EXCEPT ![p] = "idle"]
     ELSE pc' = [pc EXCEPT ![p] = "wait"] /\ UNCHANGED <<next, prev, tail, free, node>>
  /\ UNCHANGED <<mode, wake, class, waiting, asleep, granted>>
(* a reader that was let in lets the reader behind it in *)
Pass(p) ==
  LET n == node[p]
      m == next[n] IN
  /\ pc[p] = "pass"
  /\ IF m # 0 /\ class[m] = "r" /\ waiting[m]
     THEN waiting' = [waiting EXCEPT ![m] = FALSE] /\ wake' = [wake EXCEPT ![p] = m] /\ pc' = [pc EXCEPT ![p] = "wakeheld"]
          /\ granted' = granted \cup {q \in P : node[q] = m}
     ELSE pc' = [pc EXCEPT ![p] = "held"] /\ UNCHANGED <<waiting, wake, granted>>
  /\ UNCHANGED <<mode, node, next, prev, class, tail, free, asleep>>
Leave(p) ==
  LET n == node[p]
      m == next[n]
      w == m # 0 /\ IF mode[p] = "w" THEN TRUE ELSE waiting[m] /\ (prev[n] = 0 \/ class[m] = "r") IN
  /\ pc[p] = "held"
  /\ next' = IF mode[p] = "r" /\ prev[n] # 0 THEN [next EXCEPT ![prev[n]] = m] ELSE next
  /\ prev' = IF m # 0 THEN [prev EXCEPT ![m] = IF mode[p] = "w" THEN 0 ELSE prev[n]] ELSE prev
  /\ tail' = IF m = 0 /\ tail = n THEN (IF mode[p] = "w" THEN 0 ELSE prev[n]) ELSE tail
  /\ waiting' = IF w THEN [waiting EXCEPT ![m] = FALSE] ELSE waiting
  /\ granted' = (granted \ {p}) \cup (IF w THEN {q \in P : node[q] = m} ELSE {})
  /\ wake' = [wake EXCEPT ![p] = IF w THEN m ELSE 0]
  /\ free' = free \cup {n} /\ node' = [node EXCEPT ![p] = 0]
  /\ pc' = [pc EXCEPT ![p] = IF w THEN "wakeidle" ELSE "idle"]
  /\ UNCHANGED <<mode, class, asleep>>
(* wakes whoever sleeps on that node by now *)
Wake(p) == /\ pc[p] \in {"wakeheld", "wakeidle"}
           /\ asleep' = asleep \ {q \in P : node[q] = wake[p]}
           /\ wake' = [wake EXCEPT ![p] = 0]
           /\ pc' = [pc EXCEPT ![p] = IF pc[p] = "wakeheld" THEN "held" ELSE "idle"]
           /\ UNCHANGED <<mode, node, next, prev, class, waiting, tail, free, granted>>
Step(p) == Ask(p) \/ Sleep(p) \/ GiveUp(p) \/ Pass(p) \/ Leave(p) \/ Wake(p) \/ Expire(p)
Next == \E p \in P : Step(p) \/ Stir(p)
(* leaving and being woken are fair; asking, stirring and expiring need not happen *)
Spec == Init /\ [][Next]_vars /\ \A p \in P : WF_vars(Sleep(p) \/ GiveUp(p) \/ Pass(p) \/ Leave(p) \/ Wake(p))

Holds == {p \in P : pc[p] \in {"held", "pass", "wakeheld"}}
Exclusion == \A p, q \in Holds : p # q => mode[p] = "r" /\ mode[q] = "r"
GrantExclusion == \A p, q \in granted : p # q => mode[p] = "r" /\ mode[q] = "r"
Awake(p) == p \notin asleep /\ pc[p] # "idle"
NoLostWakeup == asleep # {} => \E p \in P : Awake(p)
NodesKept == free \cup {node[p] : p \in {q \in P : node[q] # 0}} = Nodes /\ Cardinality(free) + Cardinality({q \in P : node[q] # 0}) = N
(* the queue is linked both ways and ends in tail *)
Linked == \A p \in P : node[p] # 0 =>
            LET n == node[p] IN /\ (next[n] = 0) = (tail = n)
                                /\ next[n] # 0 => prev[next[n]] = n
(* whoever waits is let in or gives up in the end *)
Served == \A p \in P : pc[p] = "wait" ~> pc[p] \in {"held", "pass", "idle"}
=============================================================================
