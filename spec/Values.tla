------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values of a database and their encodings.  The state is the table of     *)
(* values encoded so far, each with the word it was encoded to.  A value is *)
(* a record [t, val, ext]: type, contents and the attached text (language,  *)
(* prefix, type) of strings, URIs, XML literals and blobs ("_": none).      *)
(* Interned types have exactly one encoding per value; for the others       *)
(* (large integers, doubles, short strings) an encoding belongs to one      *)
(* value only.  rk is the rank of the value in the order of its type (for   *)
(* plain text the language does not count).                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, tab
Ev == Cases[i].ev
E == Ev[k]
Init == i \in 1..Len(Cases) /\ k = 0 /\ tab = <<>>
(* the value the user asked for, indexed by handle + 1 *)
In == Cases[i].values
Value(h) == In[h + 1]
Interned(v) == \/ v.t \in {"null", "char", "date", "time", "var", "uri", "xml", "blob", "fix"}
               \/ v.t = "str" /\ (v.ext # "_" \/ v.long)
               \/ v.t = "int" /\ v.small
Same(v, w) == v.t = w.t /\ v.val = w.val /\ v.ext = w.ext
Code(t) == CASE t = "null" -> 1 [] t = "int" -> 3 [] t = "dbl" -> 4 [] t = "str" -> 5 [] t = "xml" -> 6 [] t = "uri" -> 7
             [] t = "blob" -> 8 [] t = "char" -> 9 [] t = "fix" -> 10 [] t = "date" -> 11 [] t = "time" -> 12 [] t = "var" -> 14
Next == /\ k < Len(Ev)
        /\ k' = k + 1
        /\ tab' = IF Ev[k+1].op = "enc" THEN Append(tab, Ev[k+1].e) ELSE tab
        /\ UNCHANGED i
On(op) == k > 0 /\ E.op = op
Decoded(e) == LET v == Value(e.v) IN
   /\ e.type = Code(v.t)
   /\ e.val = v.val
   /\ v.t \in {"str", "uri", "xml", "blob"} => e.ext = v.ext /\ e.len = v.len
(* what is read back is what was stored *)
RoundTrip == On("enc") => Decoded(E)
(* and stays so *)
Stays == On("dec") => Decoded(E)
(* different values never share an encoding *)
Injective == On("enc") => \A h \in 1..(Len(tab) - 1) : tab[h] = E.e => Same(Value(h - 1), Value(E.v))
(* an interned value has one encoding *)
Unique == On("enc") /\ Interned(Value(E.v)) => \A h \in 1..(Len(tab) - 1) : Same(Value(h - 1), Value(E.v)) => tab[h] = E.e
(* comparison is the order of the types, then of the values *)
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Compare == On("cmp") => LET v == Value(E.a) w == Value(E.b) IN
   E.res = IF v.t # w.t THEN Sign(Code(v.t) - Code(w.t)) ELSE Sign(v.rk - w.rk)
NoIllegal == On("enc") => E.type # -1
=============================================================================
