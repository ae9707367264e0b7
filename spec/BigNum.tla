------------------------------- MODULE BigNum -------------------------------
(* Integers of any size: <<neg, mag>> with neg in {0, 1} and mag the digits  *)
(* to the base 10^4, least significant first, without leading zeros.         *)
EXTENDS Integers, Sequences
B == 10000
RECURSIVE NNorm(_)
NNorm(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN NNorm(SubSeq(s, 1, Len(s) - 1)) ELSE s
Dig(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
NMax(x, y) == IF x > y THEN x ELSE y
RECURSIVE NAddR(_, _, _, _)
NAddR(a, b, k, c) == IF k > NMax(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET x == Dig(a, k) + Dig(b, k) + c IN <<x % B>> \o NAddR(a, b, k + 1, x \div B)
NAdd(a, b) == NAddR(a, b, 1, 0)
RECURSIVE NSubR(_, _, _, _)
NSubR(a, b, k, c) == IF k > Len(a) THEN <<>>
                     ELSE LET x == a[k] - Dig(b, k) - c IN <<x % B>> \o NSubR(a, b, k + 1, IF x < 0 THEN 1 ELSE 0)
NSub(a, b) == NNorm(NSubR(a, b, 1, 0))               \* a >= b
RECURSIVE NMulSR(_, _, _, _)
NMulSR(a, d, k, c) == IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                      ELSE LET x == a[k] * d + c IN <<x % B>> \o NMulSR(a, d, k + 1, x \div B)
NMulS(a, d) == IF d = 0 THEN <<>> ELSE NMulSR(a, d, 1, 0)
RECURSIVE NMul(_, _)
NMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>> ELSE NNorm(NAdd(NMulS(a, b[1]), <<0>> \o NMul(a, Tail(b))))
RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE NCmpR(a, b, k - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, Len(a))
\* the largest d in lo..hi with d * b <= r
RECURSIVE NDigit(_, _, _, _)
NDigit(b, r, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF NCmp(NMulS(b, m), r) <= 0 THEN NDigit(b, r, m, hi) ELSE NDigit(b, r, lo, m - 1)
RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, b, k, q, r) == IF k = 0 THEN <<NNorm(q), r>>
                        ELSE LET r1 == NNorm(<<a[k]>> \o r)
                                 d == NDigit(b, r1, 0, B - 1)
                             IN NDivR(a, b, k - 1, <<d>> \o q, NSub(r1, NMulS(b, d)))
NDivMod(a, b) == NDivR(a, b, Len(a), <<>>, <<>>)      \* b > 0: <<quotient, remainder>>

Z(neg, m) == IF m = <<>> THEN <<0, m>> ELSE <<neg, m>>
ZZero == <<0, <<>>>>
ZNeg(x) == Z(1 - x[1], x[2])
ZAdd(x, y) == IF x[1] = y[1] THEN Z(x[1], NAdd(x[2], y[2]))
              ELSE IF NCmp(x[2], y[2]) >= 0 THEN Z(x[1], NSub(x[2], y[2])) ELSE Z(y[1], NSub(y[2], x[2]))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z((x[1] + y[1]) % 2, NMul(x[2], y[2]))
ZCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN NCmp(x[2], y[2]) ELSE NCmp(y[2], x[2])
\* the three integer quotients and their remainders (y # 0)
ZDiv(x, y, how) ==
  LET dm == NDivMod(x[2], y[2])
      s == (x[1] + y[1]) % 2
      exact == dm[2] = <<>>
      away == /\ ~exact
              /\ \/ how = "f" /\ s = 1
                 \/ how = "c" /\ s = 0
                 \/ how = "e" /\ x[1] = 1
  IN Z(s, IF away THEN NAdd(dm[1], <<1>>) ELSE dm[1])
ZMod(x, y, how) == ZSub(x, ZMul(y, ZDiv(x, y, how)))
=============================================================================
