-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* The database lock as its users see it: requests to read or to write that *)
(* are granted or time out, and releases.  A writer excludes everyone else; *)
(* readers share; nobody who came later overtakes a request that was        *)
(* already waiting; no request waits while nothing stands in its way; each  *)
(* request that fails met another one.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k,
  st,      (* for each thread: idle, pending, held, leaving *)
  mode,    (* r or w *)
  blocked, (* threads known to wait *)
  ahead,   (* for each thread: those that were waiting already when it asked *)
  met,     (* threads whose pending request met another request *)
  writer   (* a writer has asked since the lock was last unused *)
vars == <<i, k, st, mode, blocked, ahead, met, writer>>
T == 0..7
Ev == Cases[i].ev
E == Ev[k]
Init == /\ i \in 1..Len(Cases) /\ k = 0 /\ st = [t \in T |-> "idle"] /\ mode = [t \in T |-> "r"]
        /\ blocked = {} /\ ahead = [t \in T |-> {}] /\ met = {} /\ writer = FALSE
Busy(s) == {t \in T : s[t] # "idle"}
Next ==
  /\ k < Len(Ev)
  /\ k' = k + 1
  /\ LET e == Ev[k+1]
         t == e.t IN
     /\ st' = CASE e.op = "call" -> [st EXCEPT ![t] = "pending"]
                [] e.op = "got" -> [st EXCEPT ![t] = "held"]
                [] e.op = "rel" -> [st EXCEPT ![t] = "leaving"]
                [] e.op \in {"none", "reld", "relfail"} -> [st EXCEPT ![t] = "idle"]
                [] OTHER -> st
     /\ mode' = IF e.op = "call" THEN [mode EXCEPT ![t] = e.k] ELSE mode
     /\ blocked' = CASE e.op = "wait" -> blocked \cup {t}
                     [] e.op \in {"got", "none", "tmo"} -> blocked \ {t}
                     [] OTHER -> blocked
     /\ ahead' = CASE e.op = "call" -> [ahead EXCEPT ![t] = blocked]
                   [] e.op \in {"got", "none", "tmo"} -> [u \in T |-> ahead[u] \ {t}]
                   [] OTHER -> ahead
     /\ met' = IF e.op = "call" THEN (IF Busy(st) = {} THEN met \ {t} ELSE met \cup Busy(st) \cup {t}) ELSE met
     /\ writer' = CASE e.op = "call" -> writer \/ e.k = "w"
                    [] OTHER -> writer /\ Busy(st') # {}
  /\ UNCHANGED i
On(op) == k > 0 /\ E.op = op
Exclusion == \A t, u \in T : t # u /\ st[t] = "held" /\ st[u] = "held" => mode[t] = "r" /\ mode[u] = "r"
OrderOk == On("got") => \A u \in ahead[E.t] : mode[u] = "r" /\ mode[E.t] = "r"
NoStuck == ~On("stuck") /\ ~On("hang")
Released == ~On("relfail")
(* no request gives up before its time *)
Patient == On("tmo") => E.k # "early"
Refused == On("none") => E.t \in met
Sharing == On("wait") => mode[E.t] = "w" \/ writer
Finished == k = Len(Ev) => On("end")
=============================================================================
