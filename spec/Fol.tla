------------------------------- MODULE Fol -------------------------------
(***************************************************************************)
(* First-order clause logic: syntax, semantics in finite interpretations,   *)
(* an exact decision procedure for clause sets without proper function      *)
(* symbols (with or without equality), and clause-level operations.         *)
(*                                                                          *)
(* term     <<0, k>>            variable number k of its clause             *)
(*          <<1, f, args>>      f(args); a constant when args = <<>>        *)
(* literal  <<s, p, args>>      s = 1 positive, 0 negative; p = "=" is      *)
(*                              equality                                    *)
(* clause   sequence of literals; variables are implicitly universal        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsVar(t) == t[1] = 0
Range(s) == {s[k] : k \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b
IsEq(l) == l[2] = "="
RECURSIVE SetToSeqF(_)
SetToSeqF(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqF(S \ {x})
Neg(l) == <<1 - l[1], l[2], l[3]>>

RECURSIVE TVars(_)
TVars(t) == IF IsVar(t) THEN {t[2]} ELSE UNION {TVars(t[3][k]) : k \in DOMAIN t[3]}
LVars(l) == UNION {TVars(l[3][k]) : k \in DOMAIN l[3]}
CVars(c) == UNION {LVars(c[k]) : k \in DOMAIN c}

RECURSIVE TConsts(_)
TConsts(t) == IF IsVar(t) THEN {} ELSE IF t[3] = <<>> THEN {t[2]}
              ELSE UNION {TConsts(t[3][k]) : k \in DOMAIN t[3]}
CConsts(c) == UNION {UNION {TConsts(c[k][3][j]) : j \in DOMAIN c[k][3]} : k \in DOMAIN c}

RECURSIVE TDepth(_)
TDepth(t) == IF IsVar(t) \/ t[3] = <<>> THEN 0
             ELSE 1 + (CHOOSE m \in {TDepth(t[3][k]) : k \in DOMAIN t[3]} :
                         \A k \in DOMAIN t[3] : TDepth(t[3][k]) <= m)
RECURSIVE TSize(_)
RECURSIVE TSizes(_, _)
TSize(t) == IF IsVar(t) THEN 1 ELSE 1 + TSizes(t[3], 1)
TSizes(a, k) == IF k > Len(a) THEN 0 ELSE TSize(a[k]) + TSizes(a, k+1)

RECURSIVE TSubst(_, _)
TSubst(t, th) == IF IsVar(t) THEN (IF t[2] \in DOMAIN th THEN th[t[2]] ELSE t)
                 ELSE <<1, t[2], [k \in DOMAIN t[3] |-> TSubst(t[3][k], th)]>>
LSubst(l, th) == <<l[1], l[2], [k \in DOMAIN l[3] |-> TSubst(l[3][k], th)]>>
CSubst(c, th) == [k \in DOMAIN c |-> LSubst(c[k], th)]

(***************************************************************************)
(* Propositional satisfiability of a set of clauses, each a set of nonzero  *)
(* integers (unit propagation plus splitting).                              *)
(***************************************************************************)
RECURSIVE SatP(_)
SatP(S) ==
  IF S = {} THEN TRUE
  ELSE IF {} \in S THEN FALSE
  ELSE LET U == UNION {c \in S : Cardinality(c) = 1} IN
    IF U # {} THEN
      IF \E l \in U : -l \in U THEN FALSE
      ELSE LET NU == {-l : l \in U} IN SatP({c \ NU : c \in {d \in S : d \cap U = {}}})
    ELSE LET B == {c \in S : Cardinality(c) = 2}
             c == IF B = {} THEN CHOOSE c \in S : TRUE ELSE CHOOSE c \in B : TRUE
             l == CHOOSE l \in c : TRUE IN
      \/ SatP({d \ {-l} : d \in {e \in S : l \notin e}})
      \/ SatP({d \ {l} : d \in {e \in S : -l \notin e}})

(***************************************************************************)
(* Effectively propositional clause sets: the only function symbols are     *)
(* constants.  ci maps constants to domain elements 1..n, pid numbers the   *)
(* predicates.                                                              *)
(***************************************************************************)
EVal(t, th, ci) == IF IsVar(t) THEN th[t[2]] ELSE ci[t[2]]
RECURSIVE EPack(_, _, _, _, _)
EPack(a, k, th, ci, acc) == IF k > Len(a) THEN acc ELSE EPack(a, k+1, th, ci, acc*16 + EVal(a[k], th, ci))
EAtom(l, th, ci, pid) == EPack(l[3], 1, th, ci, pid[l[2]])
EEqHolds(l, th, ci) == (EVal(l[3][1], th, ci) = EVal(l[3][2], th, ci)) <=> (l[1] = 1)
EInst(c, th, ci, pid) ==
  LET E == {k \in DOMAIN c : IsEq(c[k])} IN
  IF \E k \in E : EEqHolds(c[k], th, ci) THEN {}
  ELSE LET g == {IF c[k][1] = 1 THEN EAtom(c[k], th, ci, pid) ELSE -EAtom(c[k], th, ci, pid)
                   : k \in DOMAIN c \ E} IN
       IF \E l \in g : -l \in g THEN {} ELSE {g}
EGround(cls, n, ci, pid) ==
  UNION {UNION {EInst(cls[k], th, ci, pid) : th \in [CVars(cls[k]) -> 1..n]} : k \in DOMAIN cls}
HasEq(cls) == \E k \in DOMAIN cls : \E j \in DOMAIN cls[k] : IsEq(cls[k][j])

\* restricted growth functions: the partitions of 1..N
Partitions(N) == {f \in [1..N -> 1..N] : \A k \in 1..N :
                     \/ \E j \in 1..(k-1) : f[j] = f[k]
                     \/ f[k] = 1 + Cardinality({f[j] : j \in 1..(k-1)})}

(* A universal sentence is satisfiable iff it holds in a structure whose    *)
(* elements are exactly the denotations of its constants (one element when  *)
(* it has none); without equality the constants may be taken distinct.      *)
EprSat(cls, consts, pid) ==
  LET N == Len(consts)
      M == IF HasEq(cls) THEN Partitions(N) ELSE {[k \in 1..N |-> k]}
  IN \E f \in M :
      LET n  == IF N = 0 THEN 1 ELSE Cardinality(Range(f))
          ci == [c \in Range(consts) |-> f[CHOOSE k \in 1..N : consts[k] = c]]
      IN SatP(EGround(cls, n, ci, pid))

(* cls entails clause c: cls and the Skolemised negation of c have no model *)
SkName(k) == "sk_" \o ToString(k)
NegUnits(c) ==
  LET th == [v \in CVars(c) |-> <<1, SkName(v), <<>>>>] IN
  [k \in DOMAIN c |-> <<Neg(LSubst(c[k], th))>>]
EprEntails(cls, c, consts, pid) ==
  LET sk == {SkName(v) : v \in CVars(c)} IN
  ~EprSat(cls \o NegUnits(c), consts \o SetToSeqF(sk), pid)

(***************************************************************************)
(* Ground clause sets with function symbols.  Equality is decided by        *)
(* enumerating the congruences on the ground subterms.                      *)
(***************************************************************************)
RECURSIVE SubTerms(_)
SubTerms(t) == {t} \cup UNION {SubTerms(t[3][k]) : k \in DOMAIN t[3]}
GTerms(cls) == UNION {UNION {UNION {SubTerms(cls[k][j][3][m]) : m \in DOMAIN cls[k][j][3]}
                             : j \in DOMAIN cls[k]} : k \in DOMAIN cls}
GSatUnder(cls, cls2int, atoms) ==
  LET num(a) == CHOOSE k \in DOMAIN atoms : atoms[k] = a
      lit(l) == LET a == <<l[2], [k \in DOMAIN l[3] |-> cls2int[l[3][k]]]>> IN
                IF l[1] = 1 THEN num(a) ELSE -num(a)
      eqh(l) == (cls2int[l[3][1]] = cls2int[l[3][2]]) <=> (l[1] = 1)
      inst(c) == IF \E k \in DOMAIN c : IsEq(c[k]) /\ eqh(c[k]) THEN {}
                 ELSE {{lit(c[k]) : k \in {m \in DOMAIN c : ~IsEq(c[m])}}}
  IN SatP(UNION {inst(cls[k]) : k \in DOMAIN cls})
GAtoms(cls, m) == UNION {{<<cls[k][j][2], [x \in DOMAIN cls[k][j][3] |-> m[cls[k][j][3][x]]]>>
                           : j \in {y \in DOMAIN cls[k] : ~IsEq(cls[k][y])}} : k \in DOMAIN cls}
Congruent(m, T) == \A s, t \in T :
   (s[2] = t[2] /\ Len(s[3]) = Len(t[3]) /\ \A k \in DOMAIN s[3] : m[s[3][k]] = m[t[3][k]]) => m[s] = m[t]
GroundSat(cls) ==
  LET T  == SetToSeqF(GTerms(cls))
      TS == Range(T)
      pos(t) == CHOOSE k \in DOMAIN T : T[k] = t
      M  == IF HasEq(cls) THEN Partitions(Len(T)) ELSE {[k \in 1..Len(T) |-> k]}
  IN \E f \in M :
       LET m == [t \in TS |-> f[pos(t)]] IN
       (HasEq(cls) => Congruent(m, TS)) /\ GSatUnder(cls, m, SetToSeqF(GAtoms(cls, m)))

(***************************************************************************)
(* Finite interpretations: I.n elements 0..n-1, I.fun[f] and I.pred[p] are  *)
(* tables indexed by the arguments read as digits in base n (plus 1).       *)
(***************************************************************************)
RECURSIVE IEval(_, _, _)
RECURSIVE IIndex(_, _, _, _, _)
IEval(t, th, I) == IF IsVar(t) THEN th[t[2]] ELSE I.fun[t[2]][IIndex(t[3], 1, th, I, 0) + 1]
IIndex(a, k, th, I, acc) == IF k > Len(a) THEN acc
                            ELSE IIndex(a, k+1, th, I, acc * I.n + IEval(a[k], th, I))
ILit(l, th, I) ==
  IF IsEq(l) THEN (IEval(l[3][1], th, I) = IEval(l[3][2], th, I)) <=> (l[1] = 1)
  ELSE I.pred[l[2]][IIndex(l[3], 1, th, I, 0) + 1] = l[1]
IClause(c, I) == \A th \in [CVars(c) -> 0..(I.n - 1)] : \E k \in DOMAIN c : ILit(c[k], th, I)
(* the symbols and arities of c are those interpreted by I *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e-1)
RECURSIVE TInSig(_, _)
TInSig(t, I) == IsVar(t) \/ /\ t[2] \in DOMAIN I.fun
                            /\ Len(I.fun[t[2]]) = Pow(I.n, Len(t[3]))
                            /\ \A k \in DOMAIN t[3] : TInSig(t[3][k], I)
InSig(c, I) == \A k \in DOMAIN c :
   /\ IF IsEq(c[k]) THEN Len(c[k][3]) = 2
      ELSE c[k][2] \in DOMAIN I.pred /\ Len(I.pred[c[k][2]]) = Pow(I.n, Len(c[k][3]))
   /\ \A j \in DOMAIN c[k][3] : TInSig(c[k][3][j], I)
IAll(cls, I) == \A k \in DOMAIN cls : IClause(cls[k], I)

(***************************************************************************)
(* Matching and subsumption.  Match returns the set of substitutions (as    *)
(* functions on variable numbers) that extend th and map pattern p to t;    *)
(* it has at most one element.                                              *)
(***************************************************************************)
RECURSIVE MatchT(_, _, _)
RECURSIVE MatchA(_, _, _, _)
MatchT(p, t, th) ==
  IF IsVar(p) THEN
    IF p[2] \in DOMAIN th THEN (IF th[p[2]] = t THEN {th} ELSE {})
    ELSE {[v \in DOMAIN th \cup {p[2]} |-> IF v = p[2] THEN t ELSE th[v]]}
  ELSE IF IsVar(t) \/ p[2] # t[2] \/ Len(p[3]) # Len(t[3]) THEN {}
  ELSE MatchA(p[3], t[3], 1, th)
MatchA(p, t, k, th) ==
  IF k > Len(p) THEN {th}
  ELSE UNION {MatchA(p, t, k+1, th2) : th2 \in MatchT(p[k], t[k], th)}
EmptySubst == [v \in {} |-> <<0, 0>>]
MatchL(p, l, th) ==
  IF p[1] # l[1] \/ p[2] # l[2] \/ Len(p[3]) # Len(l[3]) THEN {}
  ELSE MatchA(p[3], l[3], 1, th) \cup
       (IF IsEq(p) THEN MatchA(p[3], <<l[3][2], l[3][1]>>, 1, th) ELSE {})
RECURSIVE SubsumesFrom(_, _, _, _)
SubsumesFrom(c, d, k, th) ==
  IF k > Len(c) THEN TRUE
  ELSE \E j \in DOMAIN d : \E th2 \in MatchL(c[k], d[j], th) : SubsumesFrom(c, d, k+1, th2)
(* c subsumes d: some instance of c is a subset of d *)
Subsumes(c, d) == SubsumesFrom(c, d, 1, EmptySubst)

Tautology(c) == \/ \E j, k \in DOMAIN c : c[j] = Neg(c[k])
                \/ \E k \in DOMAIN c : c[k][1] = 1 /\ IsEq(c[k]) /\ c[k][3][1] = c[k][3][2]
=============================================================================
