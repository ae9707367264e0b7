------------------------------ MODULE Compute ------------------------------
(***************************************************************************)
(* What gkc computes: arithmetic on integers and reals, lists, and distinct *)
(* symbols (strings).                                                       *)
(*                                                                          *)
(* term   <<"int", neg, mag>>    integer (BigNum)                           *)
(*        <<"real", neg, mag>>   the real number mag / F                    *)
(*        <<"str", codes>>       distinct symbol                            *)
(*        <<"con", name>>        constant; $nil is the empty list           *)
(*        <<"app", f, args>>     function term                              *)
(*        <<"any">>              not determined by this specification       *)
(*        <<"dec", text>>        a printed real that is no multiple of 1/F  *)
(*                                                                          *)
(* A function term whose value is not determined (an argument that is no    *)
(* number, a division by zero, an integer of more than 64 bits) stays a     *)
(* term: it must not get some value.                                        *)
(*                                                                          *)
(* A case is what one or two runs of the real program gave:                 *)
(*   vals   e: an expression, env: values of constants in it,               *)
(*          got: the terms printed for it                                   *)
(*   tests  p, a: an atom, env, got: what the program took it for:          *)
(*          "t" true, "f" false, "u" neither, "tf" both                     *)
(*   sols   cons: literals <<neg, p, a>> that have to be true, open: number *)
(*          of them; ans: answers, each a set of alternatives, each an env   *)
(***************************************************************************)
EXTENDS BigNum, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
F == <<1024>>
Small == <<8864, 6710>>                               \* 2^26
IntMax == <<5807, 5477, 368, 3372, 922>>              \* 2^63 - 1
Unknown == <<"any">>
App(f, a) == <<"app", f, a>>
Nil == <<"con", "$nil">>
InInt(z) == NCmp(z[2], IntMax) <= 0 \/ (z[1] = 1 /\ z[2] = NAdd(IntMax, <<1>>))
IsInt(t) == t[1] = "int"
IsReal(t) == t[1] = "real"
IsNum(t) == t[1] \in {"int", "real"}
IsStr(t) == t[1] = "str"
IsAny(t) == t[1] = "any"
IsList(t) == t[1] = "app" /\ t[2] = "$list" /\ Len(t[3]) = 2
ZOf(t) == <<t[2], t[3]>>
Scaled(t) == IF IsInt(t) THEN ZMul(ZOf(t), <<0, F>>) ELSE ZOf(t)
IntVal(z, stuck) == IF InInt(z) THEN <<"int", z[1], z[2]>> ELSE stuck
RealVal(z) == IF NCmp(z[2], Small) < 0 THEN <<"real", z[1], z[2]>> ELSE Unknown
IsSmall(z) == NCmp(z[2], Small) < 0
ZF == <<0, F>>

\* functions of two numbers
How(f) == CASE f = "$quotient_e" \/ f = "$remainder_e" \/ f = "$remainder" -> "e"
            [] f = "$quotient_f" \/ f = "$remainder_f" -> "f"
            [] OTHER -> "t"
Quo == {"$quotient_e", "$quotient_t", "$quotient_f"}
Rem == {"$remainder_e", "$remainder_t", "$remainder_f", "$remainder"}
Fun2 == {"$sum", "$difference", "$product", "$quotient"} \cup Quo \cup Rem
IntFun2(f, x, y, stuck) ==
  CASE f = "$sum" -> IntVal(ZAdd(x, y), stuck)
    [] f = "$difference" -> IntVal(ZSub(x, y), stuck)
    [] f = "$product" -> IntVal(ZMul(x, y), stuck)
    [] f \in Quo \cup {"$quotient"} -> IF y = ZZero THEN stuck ELSE IntVal(ZDiv(x, y, How(f)), stuck)
    [] f \in Rem -> IF y = ZZero THEN stuck ELSE IntVal(ZMod(x, y, How(f)), stuck)
RealFun2(f, x, y, stuck) ==                           \* x, y scaled by F
  CASE f = "$sum" -> RealVal(ZAdd(x, y))
    [] f = "$difference" -> RealVal(ZSub(x, y))
    [] f = "$product" -> LET p == ZMul(x, y) IN IF ZMod(p, ZF, "t") = ZZero THEN RealVal(ZDiv(p, ZF, "t")) ELSE Unknown
    [] f = "$quotient" -> IF y = ZZero THEN stuck
                          ELSE LET p == ZMul(x, ZF) IN IF ZMod(p, y, "t") = ZZero THEN RealVal(ZDiv(p, y, "t")) ELSE Unknown
    [] f \in Quo -> IF y = ZZero THEN stuck ELSE IntVal(ZDiv(x, y, How(f)), stuck)
    [] f \in Rem -> IF y = ZZero THEN stuck ELSE RealVal(ZMod(x, y, How(f)))
NumFun2(f, a, b, stuck) ==
  IF IsInt(a) /\ IsInt(b) THEN IntFun2(f, ZOf(a), ZOf(b), stuck)
  ELSE IF ~IsSmall(Scaled(a)) \/ ~IsSmall(Scaled(b)) THEN Unknown
  ELSE RealFun2(f, Scaled(a), Scaled(b), stuck)
\* functions of one number
Fun1 == {"$uminus", "$to_int", "$to_real", "$floor", "$ceiling", "$truncate", "$round"}
NumFun1(f, a, stuck) ==
  IF IsInt(a) THEN CASE f = "$uminus" -> IntVal(ZNeg(ZOf(a)), stuck)
                     [] f = "$to_real" -> RealVal(Scaled(a))
                     [] OTHER -> a
  ELSE LET z == ZOf(a) IN
       CASE f = "$uminus" -> RealVal(ZNeg(z))
         [] f = "$to_real" -> a
         [] f \in {"$floor", "$to_int"} -> IntVal(ZDiv(z, ZF, "f"), stuck)
         [] f = "$ceiling" -> IntVal(ZDiv(z, ZF, "c"), stuck)
         [] f = "$truncate" -> IntVal(ZDiv(z, ZF, "t"), stuck)
         [] f = "$round" -> LET h == <<0, <<512>>>>
                                up == ZDiv(ZAdd(z, h), ZF, "f")
                            IN IF ZMod(ZAdd(z, h), ZF, "t") = ZZero THEN Unknown ELSE IntVal(up, stuck)

RECURSIVE Val(_, _)
ApplyF(f, a) ==
  LET t == App(f, a) IN
  IF \E k \in DOMAIN a : IsAny(a[k]) THEN Unknown
  ELSE IF f \in Fun2 /\ Len(a) = 2 /\ IsNum(a[1]) /\ IsNum(a[2]) THEN NumFun2(f, a[1], a[2], t)
  ELSE IF f \in Fun1 /\ Len(a) = 1 /\ IsNum(a[1]) THEN NumFun1(f, a[1], t)
  ELSE IF f = "$first" /\ Len(a) = 1 /\ IsList(a[1]) THEN a[1][3][1]
  ELSE IF f = "$rest" /\ Len(a) = 1 /\ IsList(a[1]) THEN a[1][3][2]
  ELSE IF f = "$strlen" /\ Len(a) = 1 /\ IsStr(a[1]) THEN <<"int", 0, NNorm(<<Len(a[1][2])>>)>>
  ELSE t
\* the value of a term when env (sequence of <<name, term>>) gives the values of constants
Val(t, env) ==
  CASE t[1] = "con" /\ (\E k \in DOMAIN env : env[k][1] = t[2]) -> env[CHOOSE k \in DOMAIN env : env[k][1] = t[2]][2]
    [] t[1] = "app" -> ApplyF(t[2], [k \in DOMAIN t[3] |-> Val(t[3][k], env)])
    [] OTHER -> t

\* truth of atoms: "t", "f", "u" (neither follows), "any"
TF(c) == IF c THEN "t" ELSE "f"
IsDistinctObj(t) == IsNum(t) \/ IsStr(t)
RECURSIVE Same(_, _)
Same(a, b) ==
  IF IsAny(a) \/ IsAny(b) THEN "any"
  ELSE IF IsReal(a) /\ IsReal(b) /\ a[3] = <<>> /\ b[3] = <<>> THEN "any"     \* 0.0 and -0.0
  ELSE IF a = b THEN "t"
  ELSE IF IsDistinctObj(a) /\ IsDistinctObj(b) THEN "f"
  ELSE IF (IsDistinctObj(a) /\ (IsList(b) \/ b = Nil)) \/ (IsDistinctObj(b) /\ (IsList(a) \/ a = Nil)) THEN "f"
  ELSE IF (IsList(a) /\ b = Nil) \/ (IsList(b) /\ a = Nil) THEN "f"
  ELSE IF IsList(a) /\ IsList(b) THEN
       LET x == {Same(a[3][1], b[3][1]), Same(a[3][2], b[3][2])}
       IN IF "f" \in x THEN "f" ELSE IF "any" \in x THEN "any" ELSE "u"
  ELSE "u"
SubAt(a, b, n) == n >= 0 /\ n + Len(a) <= Len(b) /\ SubSeq(b, n + 1, n + Len(a)) = a
Truth(p, a) ==
  IF \E k \in DOMAIN a : IsAny(a[k]) THEN "any"
  ELSE CASE p = "=" -> Same(a[1], a[2])
         [] p \in {"$less", "$lesseq", "$greater", "$greatereq"} ->
              IF a[1] = a[2] THEN TF(p \in {"$lesseq", "$greatereq"})
              ELSE IF ~(IsNum(a[1]) /\ IsNum(a[2])) THEN "u"
              ELSE LET c == ZCmp(Scaled(a[1]), Scaled(a[2]))
                   IN TF(CASE p = "$less" -> c < 0 [] p = "$lesseq" -> c <= 0
                           [] p = "$greater" -> c > 0 [] p = "$greatereq" -> c >= 0)
         [] p \in {"$is_int", "$is_real", "$is_number"} ->
              IF IsNum(a[1]) THEN TF(p = "$is_number" \/ (p = "$is_int") = IsInt(a[1]))
              ELSE IF IsStr(a[1]) THEN "f"
              ELSE IF IsList(a[1]) \/ a[1] = Nil THEN "f?" ELSE "u"
         [] p = "$is_list" -> IF IsList(a[1]) \/ a[1] = Nil THEN "t" ELSE IF IsDistinctObj(a[1]) THEN "f" ELSE "u"
         [] p = "$is_distinct" -> IF IsStr(a[1]) THEN "t" ELSE IF IsNum(a[1]) \/ IsList(a[1]) \/ a[1] = Nil THEN "f" ELSE "u"
         [] p = "$substr" -> IF IsStr(a[1]) /\ IsStr(a[2])
                             THEN TF(\E n \in 0..Len(a[2][2]) : SubAt(a[1][2], a[2][2], n)) ELSE "u"
         [] p = "$substrat" -> IF ~(IsStr(a[1]) /\ IsStr(a[2]) /\ IsInt(a[3])) THEN "u"
                               ELSE TF(a[3][2] = 0 /\ Len(a[3][3]) <= 1 /\ SubAt(a[1][2], a[2][2], Dig(a[3][3], 1)))

\* what was printed for a value
RECURSIVE Match(_, _)
Match(s, o) == IF IsAny(s) THEN TRUE
               ELSE IF s[1] = "app" THEN o[1] = "app" /\ s[2] = o[2] /\ Len(s[3]) = Len(o[3]) /\ \A k \in DOMAIN s[3] : Match(s[3][k], o[3][k])
               ELSE s = o
VARIABLE i
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
C == Cases[i]
CaseOk == \A k \in DOMAIN C.tests : C.tests[k].got \in {"t", "f", "u", "tf"}

\* every value printed for an expression is its value
Values == \A k \in DOMAIN C.vals :
            LET v == C.vals[k] IN
            \A j \in DOMAIN v.got : IF v.env = <<>> THEN Match(Val(v.e, v.env), v.got[j])
                                    ELSE Match(Val(v.e, v.env), Val(v.got[j], v.env))
\* and there is one
Evaluated == \A k \in DOMAIN C.vals : C.vals[k].must => C.vals[k].got # <<>>
\* no atom is taken for true or false that does not have this value
Tests == \A k \in DOMAIN C.tests :
           LET s == C.tests[k]
               v == Truth(s.p, [j \in DOMAIN s.a |-> Val(s.a[j], s.env)])
           IN CASE v = "t" -> s.got \in {"t", "u"}
                [] v \in {"f", "f?"} -> s.got \in {"f", "u"}
                [] v = "u" -> s.got = "u"
                [] OTHER -> s.got # "tf"
\* and the value of a ground atom in the input is found
Decided == \A k \in DOMAIN C.tests :
             LET s == C.tests[k] IN
             s.must => (Truth(s.p, [j \in DOMAIN s.a |-> Val(s.a[j], <<>>)]) \in {"t", "f"} => s.got # "u")
\* an answer makes the literals true
LitTruth(l, env) == LET v == Truth(l[2], [j \in DOMAIN l[3] |-> Val(l[3][j], env)])
                    IN IF v \in {"u", "any", "f?"} THEN TRUE ELSE (v = "t") = (l[1] = 0)
Solved == \A k \in DOMAIN C.sols :
            \A j \in DOMAIN C.sols[k].ans :
              \E alt \in DOMAIN C.sols[k].ans[j] :
                \A l \in DOMAIN C.sols[k].cons : LitTruth(C.sols[k].cons[l], C.sols[k].ans[j][alt])
=============================================================================
