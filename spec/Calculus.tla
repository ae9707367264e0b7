----------------------------- MODULE Calculus -----------------------------
(***************************************************************************)
(* The inference system: unification, resolution, factoring, equality       *)
(* resolution, paramodulation, and simplification by further clauses.       *)
(* Follows(rule, prem, d) says that clause d is obtained by the rule from   *)
(* the premises, up to merging, instances and weakening.                    *)
(***************************************************************************)
EXTENDS Fol

RECURSIVE Walk(_, _)
Walk(t, th) == IF IsVar(t) /\ t[2] \in DOMAIN th THEN Walk(th[t[2]], th) ELSE t
RECURSIVE OccursIn(_, _, _)
OccursIn(v, t, th) == LET u == Walk(t, th) IN
  IF IsVar(u) THEN u[2] = v ELSE \E k \in DOMAIN u[3] : OccursIn(v, u[3][k], th)
Bind(v, t, th) == [x \in DOMAIN th \cup {v} |-> IF x = v THEN t ELSE th[x]]
(* the most general unifier of the pairs, as a triangular substitution; {} when there is none *)
RECURSIVE Unify(_, _)
Unify(ps, th) ==
  IF ps = <<>> THEN {th}
  ELSE LET a == Walk(ps[1][1], th)
           b == Walk(ps[1][2], th)
           rest == Tail(ps) IN
    IF a = b THEN Unify(rest, th)
    ELSE IF IsVar(a) THEN (IF OccursIn(a[2], b, th) THEN {} ELSE Unify(rest, Bind(a[2], b, th)))
    ELSE IF IsVar(b) THEN (IF OccursIn(b[2], a, th) THEN {} ELSE Unify(rest, Bind(b[2], a, th)))
    ELSE IF a[2] # b[2] \/ Len(a[3]) # Len(b[3]) THEN {}
    ELSE Unify([k \in 1..Len(a[3]) |-> <<a[3][k], b[3][k]>>] \o rest, th)
UnifyT(a, b) == Unify(<<<<a, b>>>>, EmptySubst)
RECURSIVE TApply(_, _)
TApply(t, th) == LET u == Walk(t, th) IN
  IF IsVar(u) THEN u ELSE <<1, u[2], [k \in DOMAIN u[3] |-> TApply(u[3][k], th)]>>
LApply(l, th) == <<l[1], l[2], [k \in DOMAIN l[3] |-> TApply(l[3][k], th)]>>
CApply(c, th) == [k \in DOMAIN c |-> LApply(c[k], th)]

(* rename the variables of c away from 1..off *)
RECURSIVE TShift(_, _)
TShift(t, off) == IF IsVar(t) THEN <<0, t[2] + off>> ELSE <<1, t[2], [k \in DOMAIN t[3] |-> TShift(t[3][k], off)]>>
CShift(c, off) == [k \in DOMAIN c |-> <<c[k][1], c[k][2], [j \in DOMAIN c[k][3] |-> TShift(c[k][3][j], off)]>>]
MaxVar(c) == LET V == CVars(c) IN IF V = {} THEN 0 ELSE CHOOSE m \in V : \A v \in V : v <= m
Apart(c, d) == CShift(d, MaxVar(c))

Without(c, k) == [j \in 1..(Len(c)-1) |-> IF j < k THEN c[j] ELSE c[j+1]]
RECURSIVE Dedup(_)
Dedup(c) == IF c = <<>> THEN <<>>
            ELSE LET t == Dedup(Tail(c)) IN IF \E k \in DOMAIN t : t[k] = c[1] THEN t ELSE <<c[1]>> \o t
(* variables renumbered 1,2,.. in order of occurrence, so that variants coincide more often *)
RECURSIVE VarSeqT(_, _)
RECURSIVE VarSeqA(_, _, _)
VarSeqT(t, acc) == IF IsVar(t) THEN (IF t[2] \in Range(acc) THEN acc ELSE Append(acc, t[2])) ELSE VarSeqA(t[3], 1, acc)
VarSeqA(a, k, acc) == IF k > Len(a) THEN acc ELSE VarSeqA(a, k+1, VarSeqT(a[k], acc))
RECURSIVE VarSeqC(_, _, _)
VarSeqC(c, k, acc) == IF k > Len(c) THEN acc ELSE VarSeqC(c, k+1, VarSeqA(c[k][3], 1, acc))
Canon(c0) == LET c == Dedup(c0)
                 vs == VarSeqC(c, 1, <<>>)
                 th == [v \in Range(vs) |-> <<0, CHOOSE k \in DOMAIN vs : vs[k] = v>>]
             IN CSubst(c, th)

IsAns(l) == l[2] = "$ans"
(* argument orders under which two literals of one predicate may be identified *)
Args(l, m) == {m[3]} \cup (IF IsEq(l) THEN {<<m[3][2], m[3][1]>>} ELSE {})
Pairs(a, b) == [k \in 1..Len(a) |-> <<a[k], b[k]>>]
UnifyL(l, m) == IF l[2] # m[2] \/ Len(l[3]) # Len(m[3]) THEN {}
                ELSE UNION {Unify(Pairs(l[3], a), EmptySubst) : a \in Args(l, m)}

Resolvents(c, d0) ==
  LET d == Apart(c, d0) IN
  UNION {UNION {{Canon(CApply(Without(c, j) \o Without(d, k), th)) : th \in
                   IF c[j][1] # d[k][1] /\ ~IsAns(c[j]) THEN UnifyL(c[j], d[k]) ELSE {}}
                : k \in DOMAIN d} : j \in DOMAIN c}
Factors(c) ==
  UNION {UNION {{Canon(CApply(Without(c, k), th)) : th \in
                   IF j < k /\ c[j][1] = c[k][1] THEN UnifyL(c[j], c[k]) ELSE {}}
                : k \in DOMAIN c} : j \in DOMAIN c}
EqResolvents(c) ==
  UNION {{Canon(CApply(Without(c, k), th)) : th \in
            IF c[k][1] = 0 /\ IsEq(c[k]) THEN UnifyT(c[k][3][1], c[k][3][2]) ELSE {}} : k \in DOMAIN c}

(* the non-variable subterm occurrences of a term list as <<path, term>>, and replacement at a path *)
RECURSIVE Occs(_, _)
Occs(a, path) == UNION {IF IsVar(a[k]) THEN {}
                        ELSE {<<Append(path, k), a[k]>>} \cup Occs(a[k][3], Append(path, k)) : k \in DOMAIN a}
RECURSIVE Put(_, _, _)
Put(a, path, s) ==
  [k \in DOMAIN a |-> IF k # path[1] THEN a[k]
                      ELSE IF Len(path) = 1 THEN s
                      ELSE <<1, a[k][2], Put(a[k][3], Tail(path), s)>>]
(* paramodulation from a positive equation of d into c *)
Paras(c, d0) ==
  LET d == Apart(c, d0) IN
  UNION {UNION {UNION {UNION {
     LET from == IF dir = 1 THEN d[k][3][1] ELSE d[k][3][2]
         to   == IF dir = 1 THEN d[k][3][2] ELSE d[k][3][1] IN
     {Canon(CApply([m \in DOMAIN c |-> IF m = j THEN <<c[j][1], c[j][2], Put(c[j][3], o[1], to)>> ELSE c[m]]
                   \o Without(d, k), th)) : th \in UnifyT(o[2], from)}
     : o \in Occs(c[j][3], <<>>)}
     : dir \in {1, 2}}
     : j \in DOMAIN c}
     : k \in {x \in DOMAIN d : d[x][1] = 1 /\ IsEq(d[x])}}

(* c with literal k removed because a further clause q refutes it, or rewritten by it, without          *)
(* instantiating c: unit cut (which may bind variables occurring nowhere else in c), cut by a two-literal clause whose other literal c already has, demodulation *)
MatchNeg(u, l, th) == IF u[1] = l[1] THEN {} ELSE MatchL(<<l[1], u[2], u[3]>>, l, th)
Cuts(c, q0) ==
  LET q == Apart(c, q0) IN
  IF Len(q) = 0 \/ Len(q) > 2 THEN {}
  ELSE (IF Len(q) # 1 THEN {} ELSE
          UNION {{Canon(Without(c, k)) : th \in
                    {t \in IF q[1][1] = c[k][1] THEN {} ELSE UnifyL(q[1], c[k]) :
                       Canon(CApply(Without(c, k), t)) = Canon(Without(c, k))}} : k \in DOMAIN c})
  \cup UNION {UNION {
         {Canon(Without(c, k)) : th \in {t \in MatchNeg(q[m], c[k], EmptySubst) :
             \A x \in DOMAIN q : x # m => \E y \in DOMAIN c : y # k /\ MatchL(q[x], c[y], t) # {}}}
         : k \in DOMAIN c} : m \in DOMAIN q}
(* grow: whether a rewrite may make the term larger *)
Demods(c, q0, grow) ==
  LET q == Apart(c, q0) IN
  IF Len(q) # 1 \/ q[1][1] = 0 \/ ~IsEq(q[1]) THEN {}
  ELSE UNION {UNION {UNION {
     LET from == IF dir = 1 THEN q[1][3][1] ELSE q[1][3][2]
         to   == IF dir = 1 THEN q[1][3][2] ELSE q[1][3][1] IN
     IF IsVar(from) \/ ~(TVars(to) \subseteq TVars(from)) \/ (~grow /\ TSize(to) > TSize(from)) THEN {} ELSE
     {Canon([m \in DOMAIN c |-> IF m = j THEN <<c[j][1], c[j][2], Put(c[j][3], o[1], TSubst(to, th))>> ELSE c[m]])
        : th \in MatchT(from, o[2], EmptySubst)}
     : o \in Occs(c[j][3], <<>>)} : dir \in {1, 2}} : j \in DOMAIN c}

Simplifications(c, qs, grow) ==
  UNION {Cuts(c, qs[k]) \cup Demods(c, qs[k], grow) : k \in DOMAIN qs} \cup EqResolvents(c)
Loose(c, qs) ==
  UNION {Resolvents(c, qs[k]) \cup Paras(c, qs[k]) : k \in DOMAIN qs} \cup EqResolvents(c) \cup Factors(c)

(* something reachable from the set S by at most n simplifications subsumes d *)
RECURSIVE Reaches(_, _, _, _, _, _)
Reaches(S, seen, qs, d, n, grow) ==
  \/ \E c \in S : Subsumes(c, d)
  \/ /\ n > 0 /\ S # {}
     /\ LET N == (UNION {Simplifications(c, qs, grow) : c \in S}) \ seen IN Reaches(N, seen \cup N, qs, d, n-1, grow)
RECURSIVE ReachesLoose(_, _, _, _, _)
ReachesLoose(S, seen, qs, d, n) ==
  \/ \E c \in S : Subsumes(c, d)
  \/ /\ n > 0 /\ S # {}
     /\ LET N == {c \in UNION {Loose(c, qs) : c \in S} : Len(c) <= 8} \ seen IN ReachesLoose(N, seen \cup N, qs, d, n-1)

Base(rule, p) ==
  CASE rule = "mp" \/ rule = "fmp" -> Resolvents(p[1], p[2])
    [] rule = "="     -> Paras(p[1], p[2]) \cup Paras(p[2], p[1])
    [] rule = "merge" -> Factors(p[1])
    [] rule = "r="    -> EqResolvents(p[1])
    [] rule \in {"simp", "inst", "instgen"} -> {Canon(p[1])}
    [] OTHER -> {}
(* the same with the literal positions (counted from 0) that the proof line gives *)
ResolventsAt(c, d0, j, k) ==
  LET d == Apart(c, d0) IN
  IF j \notin DOMAIN c \/ k \notin DOMAIN d THEN {}
  ELSE IF c[j][1] = d[k][1] \/ IsAns(c[j]) THEN {}
  ELSE {Canon(CApply(Without(c, j) \o Without(d, k), th)) : th \in UnifyL(c[j], d[k])}
FactorsAt(c, j, k) ==
  IF j \notin DOMAIN c \/ k \notin DOMAIN c \/ j = k THEN {}
  ELSE IF c[j][1] # c[k][1] THEN {}
  ELSE {Canon(CApply(Without(c, k), th)) : th \in UnifyL(c[j], c[k])}
EqResolventsAt(c, k) ==
  IF k \notin DOMAIN c THEN {}
  ELSE IF c[k][1] = 1 \/ ~IsEq(c[k]) THEN {}
  ELSE {Canon(CApply(Without(c, k), th)) : th \in UnifyT(c[k][3][1], c[k][3][2])}
(* subterm occurrences of an argument list in the order in which they are written *)
RECURSIVE PreOcc(_, _, _)
PreOcc(a, n, path) == IF n > Len(a) THEN <<>>
  ELSE <<<<Append(path, n), a[n]>>>> \o (IF IsVar(a[n]) THEN <<>> ELSE PreOcc(a[n][3], 1, Append(path, n))) \o PreOcc(a, n+1, path)
(* equation k of d, used from left to right (dir 0) or right to left, on the term numbered n in literal j of c *)
ParasAt(d0, k, dir, c, j, n) ==
  LET d == Apart(c, d0) IN
  IF k \notin DOMAIN d \/ j \notin DOMAIN c THEN {}
  ELSE IF d[k][1] = 0 \/ ~IsEq(d[k]) THEN {}
  ELSE LET from == d[k][3][1 + dir]
           to   == d[k][3][2 - dir]
           os   == PreOcc(c[j][3], 1, <<>>) IN
       IF n \notin DOMAIN os THEN {}
       ELSE IF IsVar(os[n][2]) THEN {}
       ELSE {Canon(CApply([m \in DOMAIN c |-> IF m = j THEN <<c[j][1], c[j][2], Put(c[j][3], os[n][1], to)>> ELSE c[m]]
                   \o Without(d, k), th)) : th \in UnifyT(os[n][2], from)}
(* the base inference is possible at the positions given *)
At(rule, p, pos) ==
  CASE rule = "mp"    -> ResolventsAt(p[1], p[2], pos[1][1] + 1, pos[2][1] + 1)
    [] rule = "merge" -> FactorsAt(p[1], pos[1][1] + 1, pos[1][2] + 1)
    [] rule = "r="    -> EqResolventsAt(p[1], pos[1][1] + 1)
    [] rule = "="     -> ParasAt(p[1], pos[1][1] + 1, pos[1][2], p[2], pos[2][1] + 1, pos[2][2])
    [] OTHER -> Base(rule, p)
Used(rule) == IF rule \in {"mp", "fmp", "="} THEN 2 ELSE 1
Rest(rule, p) == IF rule = "instgen" THEN <<>> ELSE SubSeq(p, Used(rule) + 1, Len(p))
Follows(rule, p, pos, d) ==
  LET B == IF Len(p) < Used(rule) THEN {} ELSE At(rule, p, pos)
      q == Rest(rule, p)
      n == IF q = <<>> THEN 2 ELSE 2 + 3 * Len(q)
  IN \/ Reaches(B, B, q, d, n, FALSE)
     \/ q # <<>> /\ Reaches(B, B, q, d, IF n > 5 THEN 5 ELSE n, TRUE)
     \/ ReachesLoose(B, B, q, d, IF Len(q) <= 2 THEN Len(q) + 1 ELSE Len(q))
=============================================================================
