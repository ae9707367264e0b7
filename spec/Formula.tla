------------------------------ MODULE Formula ------------------------------
(***************************************************************************)
(* First-order formulas, their semantics in finite interpretations, and     *)
(* what a translation of a formula into clauses, or into another syntax,    *)
(* has to preserve.                                                         *)
(*                                                                          *)
(* formula  <<"lit", literal>>   literal as in Fol                          *)
(*          <<"true">>  <<"false">>  <<"not", f>>                           *)
(*          <<op, f1, .., fk>>   op in and or                               *)
(*          <<op, f, g>>         op in imp rimp iff xor nor nand            *)
(*          <<q, vars, f>>       q in all ex; vars a sequence of variables  *)
(*                                                                          *)
(* A case has the formulas of an input (F: sequence of records f, neg, cls, *)
(* out), interpretations Is of its symbols, and what the real program made  *)
(* of it:                                                                   *)
(*   cls   the clauses it printed for the formula (with Skolem functions    *)
(*         and definition predicates it introduced)                         *)
(*   out   sequence of formulas it printed for it when converting it        *)
(*   sk, df  the introduced function and predicate symbols with their       *)
(*         arities <<symbol, arity>>                                        *)
(*   use   the interpretations (numbers) used for this formula's clauses    *)
(* neg tells that the formula is a conjecture (clauses are of its negation) *)
(***************************************************************************)
EXTENDS Fol, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

RECURSIVE Eval(_, _, _)
Eval(f, th, I) ==
  CASE f[1] = "lit" -> ILit(f[2], th, I)
    [] f[1] = "true" -> TRUE
    [] f[1] = "false" -> FALSE
    [] f[1] = "not" -> ~Eval(f[2], th, I)
    [] f[1] = "and" -> \A k \in 2..Len(f) : Eval(f[k], th, I)
    [] f[1] = "or" -> \E k \in 2..Len(f) : Eval(f[k], th, I)
    [] f[1] = "imp" -> Eval(f[2], th, I) => Eval(f[3], th, I)
    [] f[1] = "rimp" -> Eval(f[3], th, I) => Eval(f[2], th, I)
    [] f[1] = "iff" -> Eval(f[2], th, I) <=> Eval(f[3], th, I)
    [] f[1] = "xor" -> ~(Eval(f[2], th, I) <=> Eval(f[3], th, I))
    [] f[1] = "nor" -> ~(Eval(f[2], th, I) \/ Eval(f[3], th, I))
    [] f[1] = "nand" -> ~(Eval(f[2], th, I) /\ Eval(f[3], th, I))
    [] f[1] = "all" -> \A a \in [Range(f[2]) -> 0..(I.n - 1)] : Eval(f[3], a @@ th, I)
    [] f[1] = "ex" -> \E a \in [Range(f[2]) -> 0..(I.n - 1)] : Eval(f[3], a @@ th, I)
NoVars == [v \in {} |-> 0]
Holds(f, I) == Eval(f, NoVars, I)

(***************************************************************************)
(* The clauses hold in I for some choice of the introduced functions and    *)
(* predicates.  Decided propositionally: sk(d..) = v is an atom for each    *)
(* introduced function, argument tuple and value.                           *)
(***************************************************************************)
Names(s) == {s[k][1] : k \in DOMAIN s}
Num(s, x) == CHOOSE k \in DOMAIN s : s[k][1] = x
BASE == 4096
RECURSIVE SkTerms(_, _)
SkTerms(t, sk) == IF IsVar(t) THEN {}
                  ELSE (IF t[2] \in Names(sk) THEN {t} ELSE {}) \cup UNION {SkTerms(t[3][k], sk) : k \in DOMAIN t[3]}
CSkTerms(c, sk) == UNION {UNION {SkTerms(c[k][3][j], sk) : j \in DOMAIN c[k][3]} : k \in DOMAIN c}
\* value of a term when w gives the values of the terms with introduced functions
RECURSIVE WEval(_, _, _, _, _)
RECURSIVE WIndex(_, _, _, _, _, _)
WEval(t, th, I, sk, w) == IF IsVar(t) THEN th[t[2]]
                          ELSE IF t[2] \in Names(sk) THEN w[t]
                          ELSE I.fun[t[2]][WIndex(t[3], 1, th, I, sk, w) + 1]
WIndex(a, k, th, I, sk, w) == IF Len(a) = 0 THEN 0
   ELSE IF k = 1 THEN (IF Len(a) = 1 THEN WEval(a[1], th, I, sk, w)
                       ELSE IF Len(a) = 2 THEN WEval(a[1], th, I, sk, w) * I.n + WEval(a[2], th, I, sk, w)
                       ELSE IF Len(a) = 3 THEN (WEval(a[1], th, I, sk, w) * I.n + WEval(a[2], th, I, sk, w)) * I.n + WEval(a[3], th, I, sk, w)
                       ELSE LET v == [j \in DOMAIN a |-> WEval(a[j], th, I, sk, w)]
                                r[j \in 0..Len(a)] == IF j = 0 THEN 0 ELSE r[j-1] * I.n + v[j] IN r[Len(a)])
   ELSE 0
SkAtom(t, th, I, sk, df, w) == BASE * (Len(df) + Num(sk, t[2])) + WIndex(t[3], 1, th, I, sk, w) * I.n + w[t] + 1
DfAtom(l, th, I, sk, df, w) == BASE * Num(df, l[2]) + WIndex(l[3], 1, th, I, sk, w) + 1
IsDf(l, df) == l[2] \in Names(df)
Base(l, th, I, sk, w) ==
  IF IsEq(l) THEN (WEval(l[3][1], th, I, sk, w) = WEval(l[3][2], th, I, sk, w)) <=> (l[1] = 1)
  ELSE I.pred[l[2]][WIndex(l[3], 1, th, I, sk, w) + 1] = l[1]
\* one ground instance: no clause when true, else the literals still undecided
Inst(c, th, I, sk, df, w, T) ==
  IF \E k \in DOMAIN c : ~IsDf(c[k], df) /\ Base(c[k], th, I, sk, w) THEN {}
  ELSE LET g == {-SkAtom(t, th, I, sk, df, w) : t \in T} \cup
                {IF c[k][1] = 1 THEN DfAtom(c[k], th, I, sk, df, w) ELSE -DfAtom(c[k], th, I, sk, df, w) : k \in {m \in DOMAIN c : IsDf(c[m], df)}}
       IN IF \E x \in g : -x \in g THEN {} ELSE {g}
ClauseInsts(c, I, sk, df) ==
  LET T == CSkTerms(c, sk) IN
  UNION {UNION {Inst(c, th, I, sk, df, w, T) : w \in [T -> 0..(I.n - 1)]} : th \in [CVars(c) -> 0..(I.n - 1)]}
Values(I, sk, df) == UNION {{{BASE * (Len(df) + k) + x * I.n + v + 1 : v \in 0..(I.n - 1)} : x \in 0..(Pow(I.n, sk[k][2]) - 1)} : k \in DOMAIN sk}
Expands(cls, I, sk, df) == SatP(UNION {ClauseInsts(cls[k], I, sk, df) : k \in DOMAIN cls} \cup Values(I, sk, df))

\* every symbol of clause c is interpreted, or introduced with this arity
RECURSIVE TKnown(_, _, _)
TKnown(t, I, sk) == IF IsVar(t) THEN TRUE ELSE
   /\ ((t[2] \in DOMAIN I.fun /\ Len(I.fun[t[2]]) = Pow(I.n, Len(t[3]))) \/ <<t[2], Len(t[3])>> \in Range(sk))
   /\ \A k \in DOMAIN t[3] : TKnown(t[3][k], I, sk)
LKnown(l, I, sk, df) == /\ \/ IsEq(l) /\ Len(l[3]) = 2
                           \/ l[2] \in DOMAIN I.pred /\ Len(I.pred[l[2]]) = Pow(I.n, Len(l[3]))
                           \/ <<l[2], Len(l[3])>> \in Range(df)
                        /\ \A k \in DOMAIN l[3] : TKnown(l[3][k], I, sk)
Known(c, I, sk, df) == \A k \in DOMAIN c : LKnown(c[k], I, sk, df)
RECURSIVE FKnown(_, _)
FKnown(f, I) == CASE f[1] = "lit" -> LKnown(f[2], I, <<>>, <<>>)
                  [] f[1] \in {"true", "false"} -> TRUE
                  [] f[1] \in {"all", "ex"} -> FKnown(f[3], I)
                  [] OTHER -> \A k \in 2..Len(f) : FKnown(f[k], I)
RECURSIVE Closed(_, _)
Closed(f, V) == CASE f[1] = "lit" -> LVars(f[2]) \subseteq V
                  [] f[1] \in {"true", "false"} -> TRUE
                  [] f[1] \in {"all", "ex"} -> Closed(f[3], V \cup Range(f[2]))
                  [] OTHER -> \A k \in 2..Len(f) : Closed(f[k], V)

----------------------------------------------------------------------------
VARIABLES i, k, state
vars == <<i, k, state>>
C == Cases[i]
Init == i \in 1..Len(Cases) /\ k = 0 /\ state = "next"
F == C.F[k]
Truth(I) == Holds(F.f, I) # (F.neg = 1)
\* one formula after the other
Next == /\ k < Len(C.F) /\ k' = k + 1 /\ UNCHANGED i
        /\ LET G == C.F[k'] IN
           state' = IF \E x \in DOMAIN C.Is : ~FKnown(G.f, C.Is[x]) \/ ~Closed(G.f, {}) THEN "badcase"
                    ELSE IF ~(\A x \in DOMAIN C.Is : \A m \in DOMAIN G.cls : Known(G.cls[m], C.Is[x], G.sk, G.df)) THEN "symbols"
                    ELSE IF ~(\A x \in DOMAIN C.Is : \A m \in DOMAIN G.out : FKnown(G.out[m], C.Is[x]) /\ Closed(G.out[m], {})) THEN "outsymbols"
                    ELSE "ok"
Spec == Init /\ [][Next]_vars
CaseOk == state # "badcase"
(* the clauses use only the symbols of the formula and freshly introduced ones *)
Symbols == state # "symbols"
Fresh == k > 0 => \A x, y \in DOMAIN C.F : x # y =>
            (Names(C.F[x].sk) \cup Names(C.F[x].df)) \cap (Names(C.F[y].sk) \cup Names(C.F[y].df)) = {}
(* an interpretation makes the formula true iff it can be extended to the   *)
(* introduced symbols so that all its clauses are true                      *)
Faithful == (k > 0 /\ state = "ok" /\ F.clausified = 1) =>
               \A x \in Range(F.use) : Truth(C.Is[x]) <=> Expands(F.cls, C.Is[x], F.sk, F.df)
(* a converted formula is true in the same interpretations *)
Converted == (k > 0 /\ state = "ok") =>
               \A m \in DOMAIN F.out : \A x \in DOMAIN C.Is : Holds(F.f, C.Is[x]) <=> Holds(F.out[m], C.Is[x])
(* it keeps its name and role *)
Named == k > 0 => \A m \in DOMAIN F.oid : F.oid[m] = F.id
OutSymbols == state # "outsymbols"
(* no proof is reported for formulas that are true together *)
SoundF == (k > 0 /\ C.proof = 1) => ~\E x \in DOMAIN C.Is : \A m \in DOMAIN C.F : Holds(C.F[m].f, C.Is[x]) # (C.F[m].neg = 1)
=============================================================================
