------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* The storage of a database segment: a set of live blocks.  A block is an  *)
(* interval of the segment, allocated with a requested number of bytes and  *)
(* released by its handle.  Records and raw blocks live in the record area  *)
(* and are what a scan visits; blocks of the fixed-length kinds (list       *)
(* cells, short strings, words, doublewords, index nodes) live in areas of  *)
(* their own.                                                              *)
(* The variables i, k walk the recorded histories of the real allocator     *)
(* (Cases[i].ev); live is the state the specification is in after event k.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, live, seg, before, freed
Ev == Cases[i].ev
E == Ev[k]
MinVar == 32
Max(a, b) == IF a > b THEN a ELSE b
Size(kind, n) == IF kind < 2 THEN Max(n, MinVar) ELSE n
Block(e) == [h |-> e.h, off |-> e.off, end |-> e.off + Size(e.kind, e.n), kind |-> e.kind, n |-> e.n]
None == [h |-> -1, off |-> 0, end |-> 0, kind |-> -1, n |-> -1]
Init == i \in 1..Len(Cases) /\ k = 0 /\ live = {} /\ seg = Cases[i].free /\ before = Cases[i].free /\ freed = None
Effect(e) ==
  CASE e.op = "alloc" /\ e.off > 0 -> live \cup {Block(e)}
    [] e.op = "free" -> {b \in live : b.h # e.h}
    [] OTHER -> live
Next == /\ k < Len(Ev)
        /\ k' = k + 1
        /\ LET e == Ev[k+1] IN
             /\ live' = Effect(e)
             /\ before' = seg
             /\ seg' = IF e.op = "alloc" THEN e.free ELSE seg
             /\ freed' = IF e.op = "free" THEN CHOOSE b \in live : b.h = e.h
                         ELSE IF e.op = "alloc" THEN (IF k > 0 THEN [None EXCEPT !.n = IF freed.kind = e.kind THEN freed.n ELSE -1, !.kind = IF freed.h >= 0 THEN freed.kind ELSE -1] ELSE None)
                         ELSE freed
        /\ UNCHANGED i
Disjoint(a, b) == a.end <= b.off \/ b.end <= a.off
On(op) == k > 0 /\ E.op = op
(* a block is aligned, inside the segment, and overlaps no live block *)
BlockOk == On("alloc") /\ E.off > 0 =>
  LET b == Block(E) IN
    /\ b.off % 8 = 0
    /\ b.off > Cases[i].head /\ b.end <= Cases[i].size
    /\ \A o \in live : o.h # b.h => Disjoint(o, b)
(* a request fails only when the segment is used up *)
FailOk == On("alloc") /\ E.off = 0 => before < 4 * (E.n + Cases[i].slack)
(* releasing a live block succeeds *)
FreeOk == On("free") => E.rc = 0
(* no live block is written to by the allocator *)
ContentOk == On("check") => E.bad = <<>>
(* a scan of the records visits the live blocks of the record area, each once *)
Var == {b \in live : b.kind < 2}
ScanOk == On("scan") => /\ {E.offs[j] : j \in DOMAIN E.offs} = {b.off : b \in Var}
                        /\ Len(E.offs) = Cardinality(Var)
(* the segment is only extended when the space just released does not serve the request *)
ReuseOk == On("alloc") /\ E.off > 0 /\ freed.kind = E.kind /\ freed.n = E.n /\ E.kind >= 0 => seg = before
(* running the same balanced sequence of requests again and again does not use up the segment *)
SteadyOk == k = Len(Ev) /\ Cases[i].marks # <<>> =>
  LET m == Cases[i].marks
      At(j) == LET a == {x \in 1..m[j] : Ev[x].op = "alloc"} IN Ev[CHOOSE x \in a : \A y \in a : y <= x].free
  IN At(Len(m)) = At(Len(m) - 1)
=============================================================================
