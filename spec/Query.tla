------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* A database as a set of records and the set of its indexes, and what a    *)
(* query returns: exactly the records that meet all its conditions, with    *)
(* any indexes whatever.  Values are given by their rank in the order of    *)
(* all values (equal values, equal rank).  A condition on a column that a   *)
(* record does not have is not met.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, recs, idx, dup, map, set, files
Ev == Cases[i].ev
E == Ev[k]
Saved(f) == CHOOSE x \in files : x.name = f
Init == i \in 1..Len(Cases) /\ k = 0 /\ recs = {} /\ idx = {} /\ dup = FALSE /\ files = {} /\ map = {} /\ set = {}
Next == /\ k < Len(Ev)
        /\ k' = k + 1
        /\ LET e == Ev[k+1] IN
           /\ recs' = CASE e.op = "load" -> (IF e.rc = 0 THEN Saved(e.file).recs ELSE recs)
                        [] e.op = "fresh" -> {}
                        [] e.op = "rec" -> recs \cup {[h |-> e.h, f |-> e.f]}
                        [] e.op = "del" -> {r \in recs : r.h # e.h}
                        [] OTHER -> recs
           /\ idx' = CASE e.op = "load" -> (IF e.rc = 0 THEN Saved(e.file).idx ELSE idx)
                       [] e.op = "fresh" -> {}
                       [] e.op = "index" /\ e.rc = 0 -> idx \cup {e.def}
                       [] e.op = "drop" /\ e.rc = 0 -> idx \ {e.def}
                       [] OTHER -> idx
           /\ dup' = (e.op = "index" /\ e.def \in idx)
           /\ map' = IF e.op = "gadd" THEN {p \in map : p[1] # e.k} \cup {<<e.k, e.x>>} ELSE map
           /\ set' = IF e.op = "dadd" /\ e.rc = 0 THEN set \cup {e.k} ELSE set
           /\ files' = CASE e.op = "dump" /\ e.rc = 0 -> files \cup {[name |-> e.file, recs |-> recs, idx |-> idx, ok |-> TRUE]}
                         [] e.op = "copy" -> files \cup {[Saved(e.src) EXCEPT !.name = e.file, !.ok = @ /\ e.how = 0]}
                         [] OTHER -> files
        /\ UNCHANGED i
On(op) == k > 0 /\ E.op = op
Meets(r, c) == /\ c.col < Len(r.f)
               /\ LET x == r.f[c.col + 1] IN
                  CASE c.cond = 1 -> x = c.v [] c.cond = 2 -> x # c.v [] c.cond = 4 -> x < c.v
                    [] c.cond = 8 -> x > c.v [] c.cond = 16 -> x <= c.v [] c.cond = 32 -> x >= c.v
Wanted(cs) == {r.h : r \in {r \in recs : \A j \in DOMAIN cs : Meets(r, cs[j])}}
Rows == {E.rows[j] : j \in DOMAIN E.rows}
Distinct == Cardinality(Rows) = Len(E.rows)
Min(a, b) == IF a < b THEN a ELSE b
QueryOk == On("query") =>
  LET w == Wanted(E.conds) IN
    /\ Distinct
    /\ IF E.limit = 0 THEN Rows = w
       ELSE Rows \subseteq w /\ Len(E.rows) = Min(E.limit, Cardinality(w))
(* a hash index holds, under each key, the records with these fields *)
HashOk == On("hash") => Distinct /\ Rows = Wanted(E.conds)
DelOk == On("del") => E.rc = 0
(* the same index is not created twice *)
IndexOk == On("index") => (E.rc = 0) = ~dup
DropOk == On("drop") => E.rc = 0
(* an integer map returns the last value stored; a set, what was put in it *)
MapOk == On("gget") => IF \E p \in map : p[1] = E.k THEN E.rc = 0 /\ <<E.k, E.x>> \in map ELSE E.rc # 0
SetOk == /\ On("dhas") => (E.rc = 1) = (E.k \in set)
         /\ On("dadd") => E.rc = 0 \/ Cardinality(set) >= 64
(* a dump file holds the database at that moment; a damaged one is recognised; *)
(* loading an undamaged one gives that database back, in a memory of any size  *)
DumpOk == On("dump") => E.rc = 0
CheckOk == On("checkdump") => (E.rc = 0) = Saved(E.file).ok
LoadOk == On("load") => (E.rc = 0) = E.fits
(* all of the memory that is left can be used, and no other *)
FillOk == On("fill") => E.inside /\ (E.room > 100 => 2 * E.used >= E.room)
RowsOk == On("rows") => Distinct /\ Rows = {r.h : r \in recs}
=============================================================================
